// C09: first-order steps under the CFL limit keep states admissible and bounded.
#include "stencil.hpp"
#include "stepping.hpp"
using namespace md;
namespace {
// one sweep with the real kernels; returns the time step used
double sweep(Method& m, Eq& e, Field& q, int dir, double dx, double cfl, Pol pf, Pol pu, Pol pc, double& dtstable) {
  periodic(q); int w = m.width, R = e.rank; Field g = grown(q, dir, w); Idx fhi = q.hi; fhi[dir] += 1; Field f(R, e.ncons, q.lo, fhi, 1, 1, 0);
  dtstable = m.dts(pf, g, dx, dir); double dt = cfl * dtstable; if (!std::isfinite(dt)) dt = cfl * dx; m.fluxes(pf, f, g, dt, dx, dir);
  Field qc = q; qc.ncomp = e.ncons; Field out = qc; update(pu, out, qc, f, dt, dx, dir); for (int k = 0; k < e.ncons; ++k) out.each([&](Idx i) { q.at(k, i) = out.at(k, i); });
  (void)pc; return dt;
}
bool guaranteed(const Factory& f) { return starts(f.name, "Godunov/") || starts(f.name, "Hlle/") || starts(f.name, "HllemLarrouturou/") || starts(f.name, "Hllem/") || starts(f.name, "Hll/"); }
} // namespace

ORACLE("histories", 40000, 1500000) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (guaranteed(f)) fs.push_back(&f);
  auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int R = e.rank; bool scalar = e.fam == Fam::advection || e.fam == Fam::burgers;
  Idx lo{}, hi{}; for (int d = 0; d < R; ++d) { lo[d] = r.range(-3, 3); hi[d] = lo[d] + (R == 1 ? r.range(2, 30) : d == 0 ? r.range(2, 11) : r.range(2, R == 2 ? 8 : 3)); }
  Field q(R, e.ncomp, lo, hi, 1, 1, 0); int kind = r.range(0, 3); Regime reg = r.choose({Regime::mild, Regime::moderate, Regime::strong, Regime::strong}); if (e.fam == Fam::reacting && reg == Regime::strong) reg = Regime::moderate; bool hllem = starts(fac.name, "Hllem"); if (hllem) reg = Regime::mild;
  std::vector<Vec> st(std::size_t(kind == 0 ? 40 : r.range(2, 4)), Vec(std::size_t(e.ncomp))); for (auto& s : st) { e.random(r, reg, s.data()); if (kind == 1 && !scalar) { int d = r.range(0, R - 1); set_velocity(e, s.data(), d, r.uniform(-1, 1) * e.sound(s.data()) * (e.novac || e.is_euler() ? 1.5 : 1.5)); } }
  q.each([&](Idx i) { q.set(i, r.pick(st).data()); });
  int steps = R == 3 ? r.range(1, 4) : r.range(1, c.index % 40 == 0 ? 60 : 8); if (hllem) steps = std::min(steps, 3); bool limit = r.coin(0.5); double dx = r.logu(0.01, 10); Pol pf = m->policy(r), pu = r.choose({Pol::seq, Pol::simd}), pc = r.choose({Pol::seq, Pol::simd});
  c.describe(fac.name + vm::fmt(" extents %ld %ld %ld regime %d kind %d steps %d %s", long(hi[0] - lo[0]), long(hi[1] - lo[1]), long(hi[2] - lo[2]), int(reg), kind, steps, name(pf))); std::string order; Vec a(std::size_t(e.ncomp)), b(a); double gmin = 1e300, gmax = -1e300; if (scalar) q.each([&](Idx i) { gmin = std::min(gmin, q.at(0, i)); gmax = std::max(gmax, q.at(0, i)); });
  std::vector<int> aux; for (int k = 0; k < e.ncons; ++k) if ((e.comps[k].var == "Species" || e.comps[k].var == "PassiveScalars") && !starts(fac.name, "Hllem/")) aux.push_back(k);
  for (int s = 0; s < steps; ++s) {
    int dir = r.range(0, R - 1); double cfl = (limit ? 1.0 : r.uniform(0.1, 1)) * (scalar ? 1.0 : 0.5); order += char('x' + dir);
    // vacuum between neighbours has no solution for the exact solver; leave such data alone
    if (e.novac) { bool vac = false; periodic(q); q.each([&](Idx i) { Idx j = i; j[dir] += 1; q.get(i, a.data()); q.get(j, b.data()); double lim = e.fam == Fam::shallow ? 2 * (e.sound(a.data()) + e.sound(b.data())) : 2 * (e.sound(a.data()) + e.sound(b.data())) / (e.gamma - 1); vac = vac || e.velocity(b.data(), dir) - e.velocity(a.data(), dir) > 0.9 * lim; }); if (vac) { c.event("stopped_at_vacuum"); break; } }
    periodic(q); Field old = q; double dts, dt; try { dt = sweep(*m, e, q, dir, dx, cfl, pf, pu, pc, dts); } catch (std::runtime_error& x) { if (e.novac && std::string(x.what()).find("Newton") != std::string::npos) { c.event("newton_gave_up"); break; } throw; }
    (void)dt; bool adm = true; std::string what = c.description + " " + order;
    q.each([&](Idx i) {
      q.get(i, a.data()); bool ok = true; for (int k = 0; k < e.ncons; ++k) ok = ok && std::isfinite(a[k]);
      if (!c.check(ok, "finite", what)) { adm = false; return; }
      if (e.fam == Fam::shallow || e.is_euler()) adm = c.check(a[0] > 0, "positive-density", what + vm::str(" density ", a[0])) && adm;
      if (e.fam == Fam::gas || e.fam == Fam::gasmix) { double k2 = 0; for (int d = 0; d < R; ++d) k2 += 0.5 * a[1 + d] * a[1 + d] / a[0]; double E = a[std::size_t(e.idx("Energy"))]; adm = c.check(E - k2 > -1e-14 * E, "positive-pressure", what + vm::str(" internal energy ", E - k2, " of ", E)) && adm; if (!(E - k2 > 0)) adm = false; }
      Idx l = i, u = i; l[dir] -= 1; u[dir] += 1;
      if (scalar) { double mn = std::min({old.at(0, l), old.at(0, i), old.at(0, u)}), mx = std::max({old.at(0, l), old.at(0, i), old.at(0, u)}), t = 1e-13 * (std::abs(mn) + std::abs(mx)); c.check(a[0] >= mn - t && a[0] <= mx + t, "local-range", what + vm::str(" value ", a[0], " neighbours ", mn, " ", mx)); c.check(a[0] >= gmin - 1e-12 * (std::abs(gmin) + std::abs(gmax)) && a[0] <= gmax + 1e-12 * (std::abs(gmin) + std::abs(gmax)), "initial-range", what); }
      for (int k : aux) { double y = a[k] / a[0], y0 = old.at(k, l) / old.at(0, l), y1 = old.at(k, i) / old.at(0, i), y2 = old.at(k, u) / old.at(0, u), mn = std::min({y0, y1, y2}), mx = std::max({y0, y1, y2}); double t = 1e-10 * (std::abs(mn) + std::abs(mx)) * std::max(1.0, old.at(0, i) / a[0]); c.check(y >= mn - t && y <= mx + t, "species-range", what + vm::str(" ", e.comps[k].var, " ", y, " neighbours ", mn, " ", mx)); }
    });
    if (scalar) { auto tv = [&](const Field& z) { double t = 0; z.each([&](Idx i) { Idx j = i; j[dir] = j[dir] + 1 == hi[dir] ? lo[dir] : j[dir] + 1; t += std::abs(z.at(0, j) - z.at(0, i)); }); return t; }; double t0 = tv(old), t1 = tv(q); c.check(t1 <= t0 * (1 + 1e-12) + 1e-12 * double(q.cells()) * std::max(std::abs(gmin), std::abs(gmax)), "total-variation", what + vm::str(" ", t0, " -> ", t1)); }
    c.event("cell_updates", q.cells()); if (limit) c.event("steps_at_the_limit");
    if (!adm) break;
    Field qc = q; qc.ncomp = e.ncons; e.complete_view(pc, q, qc);
    if (e.fam == Fam::reacting) q.each([&](Idx i) { c.check(q.at(e.idx("Pressure"), i) > 0 && q.at(e.idx("Temperature"), i) > 0, "positive-pressure", what); });
    // entropy of the exact solver never falls below that of the neighbours
    if (starts(fac.name, "Godunov/Perf")) q.each([&](Idx i) { auto S = [&](const Field& z, Idx j) { return std::log(z.at(e.idx("Pressure"), j)) - e.gamma * std::log(z.at(0, j)); }; Idx l = i, u = i; l[dir] -= 1; u[dir] += 1; double mn = std::min({S(old, l), S(old, i), S(old, u)}); c.check(S(q, i) >= mn - 1e-5 * (1 + std::abs(mn)), "entropy", what + vm::str(" ", S(q, i), " neighbours ", mn)); });
  }
  c.event("method_" + fac.name); c.sig(c.description + order);
}
