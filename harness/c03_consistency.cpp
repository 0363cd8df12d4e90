// C03: consistency, upwinding, resting contacts, auxiliary quantities and the
// closed forms of the approximate Riemann solvers.
#include "stencil.hpp"
using namespace md;

ORACLE("uniform", 60000, 1500000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width, dir = r.range(0, e.rank - 1);
  Vec q(std::size_t(e.ncomp)), st, f, ex(std::size_t(e.ncons)); e.random(r, r.choose({Regime::mild, Regime::moderate, Regime::strong}), q.data());
  if (r.coin(0.3)) set_velocity(e, q.data(), dir, (r.coin() ? 1 : -1) * r.choose({0.0, 1.0, 3.0}) * (e.sound(q.data()) + (e.is_euler() || e.fam == Fam::shallow ? 0 : 1)));
  for (int i = 0; i < n; ++i) st.insert(st.end(), q.begin(), q.end());
  double dx = r.logu(0.01, 10), dt = 0.4 * dx / std::max(1e-6, e.speed(q.data(), dir));
  c.describe(fac.name + vm::fmt(" dir %d ", dir) + e.show(q.data()));
  auto how = eval(c, *m, st, dt, dx, dir, f); e.exact_flux(q.data(), dir, ex.data()); Vec sc = flux_scale(*m, e, st.data(), n, dir);
  double tol = e.fam == Fam::reacting ? 1e-8 : 1e-11;
  for (int k = 0; k < e.ncons; ++k) c.close(f[k], ex[k], tol * sc[k], "numerical", fac.name + " " + how + " " + e.comps[k].var);
  // the physical flux itself, against the closed form
  Vec g(std::size_t(e.ncons)), q8(q.size() * W), g8(g.size() * W); e.flux(q.data(), dir, g.data()); for (std::size_t i = 0; i < q8.size(); ++i) q8[i] = q[i / W]; e.flux8(q8.data(), dir, g8.data());
  for (int k = 0; k < e.ncons; ++k) { c.close(g[k], ex[k], 1e-13 * sc[k], "physical", e.name + " " + e.comps[k].var); c.close(g8[k * W + c.index % W], ex[k], 1e-13 * sc[k], "physical-vector", e.name + " " + e.comps[k].var); }
  c.event("method_" + fac.name); c.event("entry_" + how); c.sig(fac.name + how + vm::fmt("%d %ld", dir, c.index % 4999));
}

ORACLE("upwind", 45000, 1000000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width, dir = r.range(0, e.rank - 1); if (m->order > 2) { c.sig("third order: not judged"); c.check(true, "none"); return; }
  Vec st; Regime reg = any(r, *m); double amax = 0; bool right = r.coin(); st.resize(std::size_t(n * e.ncomp)); Vec a(std::size_t(e.ncomp));
  for (int i = 0; i < n; ++i) { e.random(r, reg, st.data() + i * e.ncomp); const double* x = st.data() + i * e.ncomp; double a2 = e.sound(x) * e.sound(x); if (e.is_euler()) for (int d = 0; d < e.rank; ++d) if (d != dir) { double v = x[e.idx("Momentum", d)] / x[0]; a2 += 0.5 * v * v; } amax = std::max(amax, std::sqrt(a2)); } // the signal estimates contain the transverse kinetic energy
  if (e.fam == Fam::reacting && m->order > 1) for (int i = 1; i < n; ++i) { // reconstruction does not promise positivity across large composition jumps
    Vec b(std::size_t(e.ncons)); double w = r.uniform(0.02, 0.2); for (int k = 0; k < e.ncons; ++k) b[k] = (1 - w) * st[k] + w * st[std::size_t(i * e.ncomp + k)];
    e.complete(b.data(), st.data() + i * e.ncomp);
  }
  double lo = r.uniform(1.6, 3) * amax; // all characteristic speeds of all Roe averages have one sign
  double span = m->order > 1 ? 0.05 * amax : amax;
  if (starts(fac.name, "Godunov") || m->order > 1) { double p0 = 1e300, p1 = 0; if (e.is_euler()) for (int i = 0; i < n; ++i) { double p = st[std::size_t(i * e.ncomp + e.idx("Pressure"))]; p0 = std::min(p0, p); p1 = std::max(p1, p); } if (p1 > 0) lo *= std::sqrt(p1 / p0); if (e.fam == Fam::shallow) lo *= 3; } // strong shocks run upstream
  for (int i = 0; i < n; ++i) { double u = lo + span * r.u01(); if (e.fam == Fam::burgers) u = r.uniform(0.1, 2); set_velocity(e, st.data() + i * e.ncomp, dir, right ? u : -u); }
  if (e.fam == Fam::advection) right = e.vel[dir] > 0;
  // wide stencils: no slope on the upwind side
  int up = right ? m->width - 1 : m->width;
  if (m->order > 1) { int far = right ? up - 1 : up + 1; std::copy(st.begin() + up * e.ncomp, st.begin() + (up + 1) * e.ncomp, st.begin() + far * e.ncomp); }
  double smax = 0; for (int i = 0; i < n; ++i) smax = std::max(smax, e.speed(st.data() + i * e.ncomp, dir));
  double dx = r.logu(0.01, 10), dt = 0.25 * dx / std::max(1e-6, smax); Vec f, ex(std::size_t(e.ncons));
  c.describe(fac.name + vm::fmt(" dir %d ", dir) + show(e, st)); if (c.verbose) std::fprintf(stderr, "%s\n", c.description.c_str()); auto how = eval(c, *m, st, dt, dx, dir, f);
  e.exact_flux(st.data() + up * e.ncomp, dir, ex.data()); Vec sc = flux_scale(*m, e, st.data(), n, dir);
  double tol = e.fam == Fam::shallow ? 1e-8 : std::max(1e-9, tol_of(*m, e));
  for (int k = 0; k < e.ncons; ++k) c.close(f[k], ex[k], tol * sc[k], "flux", fac.name + " " + how + " " + e.comps[k].var);
  c.event("method_" + fac.name); c.event(right ? "from_left" : "from_right"); c.sig(fac.name + how + vm::fmt("%d%d %ld", dir, int(right), c.index % 1999));
}

ORACLE("contact", 20000, 400000) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (starts(f.name, "Godunov/PerfectGas") || starts(f.name, "Hllem")) fs.push_back(&f);
  auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int dir = r.range(0, e.rank - 1);
  Vec L(std::size_t(e.ncomp)), R(L), f; Regime reg = any(r, *m); e.random(r, reg, L.data()); e.random(r, reg, R.data());
  int ip = e.idx("Pressure"), ie = e.idx("Energy"), ia = e.idx("SpeedOfSound");
  R[ie] += (L[ip] - R[ip]) / (e.gamma - 1); R[ip] = L[ip]; R[ia] = std::sqrt(e.gamma * R[ip] / R[0]);
  set_velocity(e, L.data(), dir, 0); set_velocity(e, R.data(), dir, 0);
  Vec st = L; st.insert(st.end(), R.begin(), R.end()); double dx = 1, dt = 0.3 / std::max(e.sound(L.data()), e.sound(R.data()));
  c.describe(fac.name + vm::fmt(" dir %d ", dir) + show(e, st)); if (c.verbose) std::fprintf(stderr, "%s\n", c.description.c_str()); auto how = eval(c, *m, st, dt, dx, dir, f); Vec sc = flux_scale(*m, e, st.data(), 2, dir);
  double tol = starts(fac.name, "Godunov") ? 1e-6 : 1e-11;
  for (int k = 0; k < e.ncons; ++k) { double ex = k == e.idx("Momentum", dir) ? L[ip] : 0.0; c.close(f[k], ex, tol * sc[k], "flux", fac.name + " " + how + " " + e.comps[k].var); }
  c.event("method_" + fac.name); c.sig(fac.name + how + vm::fmt("%d %ld", dir, c.index % 1999));
}

ORACLE("auxiliary", 20000, 400000) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (starts(f.name, "HllemLarrouturou") || f.fam == Fam::reacting) fs.push_back(&f);
  auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int dir = r.range(0, e.rank - 1), n = 2 * m->width; Vec st, f; random_stencil(r, *m, any(r, *m), st);
  double smax = 0; for (int i = 0; i < n; ++i) smax = std::max(smax, e.speed(st.data() + i * e.ncomp, dir)); double dx = 1, dt = 0.2 / smax;
  c.describe(fac.name + vm::fmt(" dir %d ", dir) + show(e, st)); if (c.verbose) std::fprintf(stderr, "%s\n", c.description.c_str()); auto how = eval(c, *m, st, dt, dx, dir, f); Vec sc = flux_scale(*m, e, st.data(), n, dir);
  if (e.fam == Fam::reacting) { // mass fractions add up to one, so do their fluxes
    double s = 0; for (int i = 0; i < e.ncons; ++i) if (e.comps[i].var == "Species") s += f[i];
    c.close(s, f[0], (m->order > 1 ? 1e-9 : 1e-11) * sc[0], "species-sum", fac.name + " " + how);
  } else {
    const double* up = f[0] > 0 ? st.data() : st.data() + e.ncomp; double tol = 1e-11;
    for (int i = 0; i < e.ncons; ++i) {
      const auto& cc = e.comps[i]; bool aux = cc.var == "Species" || cc.var == "PassiveScalars" || (cc.var == "Momentum" && cc.i != dir);
      if (aux) c.close(f[i], f[0] * up[i] / up[0], tol * (std::abs(f[i]) + 1e-3 * sc[i]), "upwind-value", fac.name + " " + how + " " + cc.var);
    }
  }
  c.event("method_" + fac.name); c.sig(fac.name + how + vm::fmt("%d %ld", dir, c.index % 1999));
}

// closed forms: Godunov fluxes of the scalar equations, HLLE and HLLEM fluxes
ORACLE("closed-form", 40000, 800000) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (starts(f.name, "Hll") || starts(f.name, "Godunov/Adv") || starts(f.name, "Godunov/Bur")) fs.push_back(&f);
  auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int dir = r.range(0, e.rank - 1); Vec st, f; random_stencil(r, *m, any(r, *m), st);
  const double *L = st.data(), *R = L + e.ncomp; double smax = std::max(e.speed(L, dir), e.speed(R, dir)), dx = 1, dt = 0.3 / std::max(1e-6, smax);
  c.describe(fac.name + vm::fmt(" dir %d ", dir) + show(e, st)); if (c.verbose) std::fprintf(stderr, "%s\n", c.description.c_str()); auto how = eval(c, *m, st, dt, dx, dir, f); Vec sc = flux_scale(*m, e, st.data(), 2, dir), ex(std::size_t(e.ncons));
  if (e.fam == Fam::advection) ex[0] = e.vel[dir] * (e.vel[dir] > 0 ? L[0] : R[0]);
  else if (e.fam == Fam::burgers) ex[0] = L[0] > R[0] ? std::max(0.5 * L[0] * L[0], 0.5 * R[0] * R[0]) : L[0] > 0 ? 0.5 * L[0] * L[0] : R[0] < 0 ? 0.5 * R[0] * R[0] : 0.0;
  else if (e.fam == Fam::shallow) {
    double bl = std::min({e.velocity(L, dir) - e.sound(L), e.velocity(R, dir) - e.sound(R), 0.0}), br = std::max({e.velocity(L, dir) + e.sound(L), e.velocity(R, dir) + e.sound(R), 0.0}); Vec fl(std::size_t(e.ncons)), fr(fl); e.exact_flux(L, dir, fl.data()); e.exact_flux(R, dir, fr.data());
    for (int k = 0; k < e.ncons; ++k) ex[k] = (br * fl[k] - bl * fr[k] + bl * br * (R[k] - L[k])) / (br - bl);
  } else {
    bool hllem = starts(fac.name, "Hllem"), larr = starts(fac.name, "HllemL"); Vec l(L, R), q(R, R + e.ncomp); double kl = 0, kr = 0, v2l = 0, v2r = 0; int ie = e.idx("Energy"), ip = e.idx("Pressure"), ia = e.idx("SpeedOfSound"), im = e.idx("Momentum");
    if (larr) for (int d = 0; d < e.rank; ++d) if (d != dir) { kl += 0.5 * L[im + d] * L[im + d] / L[0]; kr += 0.5 * R[im + d] * R[im + d] / R[0]; l[im + d] = q[im + d] = 0; }
    l[ie] -= kl; q[ie] -= kr;
    double wl = std::sqrt(l[0]), wr = std::sqrt(q[0]), w = wl + wr; auto roe = [&](double a, double b) { return (wl * a + wr * b) / w; };
    double ul = l[im + dir] / l[0], ur = q[im + dir] / q[0], ru = roe(ul, ur), rH = roe((l[ie] + l[ip]) / l[0], (q[ie] + q[ip]) / q[0]), r2 = 0; std::vector<double> rv(std::size_t(e.rank));
    for (int d = 0; d < e.rank; ++d) { rv[d] = roe(l[im + d] / l[0], q[im + d] / q[0]); r2 += rv[d] * rv[d]; }
    (void)v2l; (void)v2r;
    double ra = e.fam == Fam::reacting ? std::sqrt(roe(l[ia] * l[ia], q[ia] * q[ia]) + 0.5 * wl * wr / (w * w) * (ur - ul) * (ur - ul)) : 0, ral = 0;
    double sl, sr;
    if (e.fam == Fam::reacting) { sl = std::min(ul - l[ia], ru - ra); sr = std::max(ur + q[ia], ru + ra); }
    else {
      // HLLEM uses the full Roe speed of sound; the Einfeldt estimate of HLLE as well
      ra = std::sqrt((e.gamma - 1) * (rH - 0.5 * r2)); ral = std::sqrt((e.gamma - 1) * (rH - 0.5 * ru * ru));
      double al = l[ia], ar = q[ia]; if (hllem) al = ar = std::max(al, ar); else ra = ral;
      sl = std::min(ul - al, ru - ra); sr = std::max(ur + ar, ru + ra);
    }
    double bl = std::min(sl, 0.0), br = std::max(sr, 0.0), db = br - bl; Vec fl(std::size_t(e.ncons)), fr(fl); e.exact_flux(l.data(), dir, fl.data()); e.exact_flux(q.data(), dir, fr.data());
    for (int k = 0; k < e.ncons; ++k) ex[k] = (br * fl[k] - bl * fr[k] + bl * br * (q[k] - l[k])) / db;
    if (hllem) {
      double ub = 0.5 * (sl + sr), de = ra / (ra + std::abs(ub)), b = bl * br / db, g = (e.gamma - 1) / (ra * ra), dr = q[0] - l[0];
      double a2 = g * ((rH - r2) * dr - (q[ie] - l[ie])); for (int d = 0; d < e.rank; ++d) a2 += g * rv[d] * (q[im + d] - l[im + d]);
      Vec cor(std::size_t(e.ncons)); cor[0] = a2; cor[ie] = a2 * 0.5 * r2; for (int d = 0; d < e.rank; ++d) cor[im + d] = a2 * rv[d];
      for (int d = 0; d < e.rank; ++d) if (d != dir) { double at = (q[im + d] - l[im + d]) - rv[d] * dr; cor[im + d] += at; cor[ie] += at * rv[d]; }
      for (int k = 0; k < e.ncons; ++k) { auto& v = e.comps[k].var; if (v == "Species" || v == "PassiveScalars") { double ry = roe(l[k] / l[0], q[k] / q[0]); cor[k] = a2 * ry + (q[k] - l[k]) - ry * dr; } }
      for (int k = 0; k < e.ncons; ++k) ex[k] -= b * de * cor[k];
      if (larr) for (int k = 0; k < e.ncons; ++k) {
        const double* up = ex[0] > 0 ? L : R; auto& v = e.comps[k].var;
        if (v == "Species" || v == "PassiveScalars" || (v == "Momentum" && e.comps[k].i != dir)) ex[k] = ex[0] * up[k] / up[0];
        if (v == "Energy") ex[k] += ex[0] * (ex[0] > 0 ? kl / L[0] : kr / R[0]);
      }
    }
  }
  double tol = 1e-10;
  for (int k = 0; k < e.ncons; ++k) c.close(f[k], ex[k], tol * sc[k], "flux", fac.name + " " + how + " " + e.comps[k].var);
  c.event("method_" + fac.name); c.sig(fac.name + how + vm::fmt("%d %ld", dir, c.index % 1999));
}
