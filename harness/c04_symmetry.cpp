// C04: mirror images, exchanged axes and embedded lower-dimensional problems.
#include "stencil.hpp"
using namespace md;
namespace {
// +1 / -1: what a mirror reflection in direction d does to component k
int parity(const Eq& e, int k, int d) { return (e.comps[k].var == "Momentum" && e.comps[k].i == d) || e.fam == Fam::burgers ? -1 : 1; }
double sym_tol(const std::string& n, const Method& m, const Eq& e) {
  if (starts(n, "Godunov/PerfectGas") || starts(n, "MusclHancock/PerfectGas")) return 2e-6;
  if (e.fam == Fam::shallow) return 1e-7;
  return std::max(1e-10, tol_of(m, e));
}
void sub(Vec& dst, const Vec& src, int nc, int to, int from) { std::copy(src.begin() + from * nc, src.begin() + (from + 1) * nc, dst.begin() + to * nc); }
double safe_dt(vm::Case& c, const Eq& e, const Vec& st, int n, int dir, double dx) { double s = 1e-6; for (int i = 0; i < n; ++i) s = std::max(s, e.speed(st.data() + i * e.ncomp, dir)); return c.rng.uniform(0.05, 0.25) * dx / s; }
} // namespace

// the stencil seen in a mirror along the face normal
ORACLE("mirror.normal", 50000, 1500000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width, dir = r.range(0, e.rank - 1);
  if (e.fam == Fam::advection) { // the velocity field belongs to the equation and cannot be mirrored; exchange of axes covers it
    c.sig("advection"); c.check(true, "none"); return; }
  Vec st, f, g; random_stencil(r, *m, any(r, *m), st); Vec mi(st.size());
  for (int i = 0; i < n; ++i) { sub(mi, st, e.ncomp, n - 1 - i, i); e.mirror(mi.data() + (n - 1 - i) * e.ncomp, dir); }
  double dx = r.logu(0.01, 10), dt = safe_dt(c, e, st, n, dir, dx); c.describe(fac.name + vm::fmt(" dir %d ", dir) + show(e, st));
  auto h1 = eval(c, *m, st, dt, dx, dir, f), h2 = eval(c, *m, mi, dt, dx, dir, g); Vec sc = flux_scale(*m, e, st.data(), n, dir); double tol = sym_tol(fac.name, *m, e);
  auto scalar = [](const std::string& h) { return h == "cell" || h == name(Pol::seq) || h == name(Pol::dflt) || h == name(Pol::omp); };
  if (!m->agree && scalar(h1) != scalar(h2)) { c.sig("limiters differ"); c.check(true, "none"); return; }
  for (int k = 0; k < e.ncons; ++k) c.close(g[k], -parity(e, k, dir) * f[k], tol * sc[k], "flux", fac.name + " " + h1 + "/" + h2 + " " + e.comps[k].var);
  // physical flux of one cell, both forms
  Vec a(std::size_t(e.ncons)), b(a), q8(std::size_t(e.ncomp * W)), a8(a.size() * W); e.flux(st.data(), dir, a.data());
  for (std::size_t i = 0; i < q8.size(); ++i) q8[i] = mi[std::size_t((n - 1) * e.ncomp) + i / W];
  e.flux(mi.data() + (n - 1) * e.ncomp, dir, b.data()); e.flux8(q8.data(), dir, a8.data());
  for (int k = 0; k < e.ncons; ++k) { c.close(b[k], -parity(e, k, dir) * a[k], 1e-13 * sc[k], "physical", e.name + " " + e.comps[k].var); c.close(a8[k * W + c.index % W], -parity(e, k, dir) * a[k], 1e-13 * sc[k], "physical-vector", e.name + " " + e.comps[k].var); }
  c.event("method_" + fac.name); c.event("entries_" + h1 + "_" + h2); c.sig(fac.name + h1 + h2 + vm::fmt("%d %ld", dir, c.index % 9973));
}

// reversed transverse velocities
ORACLE("mirror.transverse", 30000, 800000) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (f.rank > 1 && f.fam != Fam::advection) fs.push_back(&f);
  auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width, dir = r.range(0, e.rank - 1), tr = (dir + r.range(1, e.rank - 1)) % e.rank;
  Vec st, f, g; random_stencil(r, *m, any(r, *m), st); Vec mi(st); for (int i = 0; i < n; ++i) e.mirror(mi.data() + i * e.ncomp, tr);
  double dx = r.logu(0.01, 10), dt = safe_dt(c, e, st, n, dir, dx); c.describe(fac.name + vm::fmt(" dir %d transverse %d ", dir, tr) + show(e, st));
  int how = 0; (void)how; Rng keep = r; auto h1 = eval(c, *m, st, dt, dx, dir, f); r = keep; eval(c, *m, mi, dt, dx, dir, g); Vec sc = flux_scale(*m, e, st.data(), n, dir); double tol = sym_tol(fac.name, *m, e);
  for (int k = 0; k < e.ncons; ++k) c.close(g[k], parity(e, k, tr) * f[k], tol * sc[k], "flux", fac.name + " " + h1 + " " + e.comps[k].var);
  c.event("method_" + fac.name); c.sig(fac.name + h1 + vm::fmt("%d%d %ld", dir, tr, c.index % 9973));
}

// two coordinate axes change their roles
ORACLE("axes", 40000, 1000000) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (f.rank > 1) fs.push_back(&f);
  auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width, a = r.range(0, e.rank - 1), b = (a + r.range(1, e.rank - 1)) % e.rank;
  if (e.fam == Fam::advection) { c.sig("advection"); c.check(true, "none"); return; }
  Vec st, f, g; random_stencil(r, *m, any(r, *m), st); Vec mi(st); for (int i = 0; i < n; ++i) e.swap_axes(mi.data() + i * e.ncomp, a, b);
  double dx = r.logu(0.01, 10), dt = safe_dt(c, e, st, n, a, dx); c.describe(fac.name + vm::fmt(" axes %d %d ", a, b) + show(e, st));
  Rng keep = r; auto h1 = eval(c, *m, st, dt, dx, a, f); r = keep; eval(c, *m, mi, dt, dx, b, g); Vec sc = flux_scale(*m, e, st.data(), n, a); double tol = sym_tol(fac.name, *m, e);
  e.swap_axes(f.data(), a, b); for (int k = 0; k < e.ncons; ++k) c.close(g[k], f[k], tol * sc[k], "flux", fac.name + " " + h1 + " " + e.comps[k].var);
  Vec p(std::size_t(e.ncons)), q(p); e.flux(st.data(), a, p.data()); e.flux(mi.data(), b, q.data()); e.swap_axes(p.data(), a, b);
  for (int k = 0; k < e.ncons; ++k) c.close(q[k], p[k], 1e-13 * sc[k], "physical", e.name + " " + e.comps[k].var);
  c.event("method_" + fac.name); c.sig(fac.name + h1 + vm::fmt("%d%d %ld", a, b, c.index % 9973));
}

// a lower-dimensional flow computed by a higher-dimensional solver
ORACLE("embedding", 40000, 1000000) {
  auto& r = c.rng; std::vector<std::pair<Factory*, Factory*>> fs;
  for (auto& lo : methods()) for (auto& hi : methods()) if (lo.rank < hi.rank && lo.fam == hi.fam && lo.fam != Fam::advection && lo.fam != Fam::shallow && lo.name.substr(0, lo.name.size() - 1) == hi.name.substr(0, hi.name.size() - 1)) fs.push_back({&lo, &hi});
  auto& p = fs[std::size_t(c.index) % fs.size()]; Rng twin = r; auto lo = p.first->make(r); auto hi = p.second->make(twin); auto &e = lo->eq(), &E = hi->eq();
  int n = 2 * lo->width, perm[3] = {0, 1, 2}; for (int i = E.rank - 1; i > 0; --i) std::swap(perm[i], perm[r.range(0, i)]); // axis of the low dimensional problem -> axis of the other one
  int dir = r.range(0, e.rank - 1), Dir = perm[dir]; Vec st, f, g; random_stencil(r, *lo, any(r, *lo), st); Vec S(std::size_t(n * E.ncomp), 0.0);
  auto map = [&](int k) { return e.comps[k].var == "Momentum" ? E.idx("Momentum", perm[e.comps[k].i]) : E.idx(e.comps[k].var.c_str(), e.comps[k].i); };
  for (int i = 0; i < n; ++i) for (int k = 0; k < e.ncomp; ++k) S[std::size_t(i * E.ncomp + map(k))] = st[std::size_t(i * e.ncomp + k)];
  double dx = r.logu(0.01, 10), dt = safe_dt(c, e, st, n, dir, dx); c.describe(p.second->name + vm::fmt(" dir %d -> %d ", dir, Dir) + show(e, st));
  if (!c.checkf(e.gamma == E.gamma && e.ncomp + E.rank - e.rank == E.ncomp, "harness", [] { return std::string("different gas"); })) return;
  Rng keep = r; auto h = eval(c, *lo, st, dt, dx, dir, f); r = keep; eval(c, *hi, S, dt, dx, Dir, g); Vec sc = flux_scale(*hi, E, S.data(), n, Dir); double tol = sym_tol(p.first->name, *lo, e);
  std::vector<char> seen(std::size_t(E.ncons));
  for (int k = 0; k < e.ncons; ++k) { seen[map(k)] = 1; c.close(g[map(k)], f[k], tol * sc[map(k)], "flux", p.second->name + " " + h + " " + e.comps[k].var); }
  for (int k = 0; k < E.ncons; ++k) if (!seen[k]) c.close(g[k], 0, tol * sc[k], "transverse", p.second->name + " " + h);
  c.event("method_" + p.second->name); c.sig(p.second->name + h + vm::fmt("%d%d %ld", dir, Dir, c.index % 9973));
}

// wave-speed estimates and stable time steps of images of a stencil and a patch
ORACLE("timestep", 30000, 600000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width, dir = r.range(0, e.rank - 1), dir2 = dir;
  if (e.fam == Fam::advection) { c.sig("advection"); c.check(true, "none"); return; }
  Vec st; random_stencil(r, *m, any(r, *m), st); Vec mi(st.size()); bool swap = e.rank > 1 && r.coin();
  for (int i = 0; i < n; ++i) sub(mi, st, e.ncomp, swap ? i : n - 1 - i, i);
  if (swap) dir2 = (dir + r.range(1, e.rank - 1)) % e.rank;
  for (int i = 0; i < n; ++i) if (swap) e.swap_axes(mi.data() + i * e.ncomp, dir, dir2); else e.mirror(mi.data() + i * e.ncomp, dir);
  double dx = r.logu(0.01, 10); c.describe(fac.name + vm::fmt(" dir %d %d ", dir, dir2) + show(e, st)); bool vec = m->has_dt8 && (!m->has1 || r.coin()); double a, b;
  if (vec) { Vec s8(st.size() * W), m8(s8), o(W), o2(W); for (std::size_t i = 0; i < s8.size(); ++i) { s8[i] = st[i / W]; m8[i] = mi[i / W]; } m->dt8(s8.data(), dx, dir, o.data()); m->dt8(m8.data(), dx, dir2, o2.data()); a = o[c.index % W]; b = o2[(c.index + 3) % W]; }
  else if (m->has1) { a = m->dt1(st.data(), dx, dir); b = m->dt1(mi.data(), dx, dir2); }
  else { c.check(true, "none"); c.sig("no entry"); return; }
  double tol = e.fam == Fam::shallow ? 1e-2 : starts(fac.name, "Godunov/Per") || starts(fac.name, "MusclHancock/Per") ? 1e-5 : 1e-9;
  c.check(std::abs(a - b) <= tol * a || a == b, "dt", fac.name + (vec ? " vector " : " cell ") + vm::str(a, " ", b));
  c.event("method_" + fac.name); c.event(swap ? "axes" : "mirrored"); c.sig(fac.name + vm::fmt("%d%d%d %ld", dir, int(swap), int(vec), c.index % 9973));
}

// whole patches: one direction against the transposed or mirrored patch
ORACLE("patch", 4000, 80000) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (f.fam != Fam::advection) fs.push_back(&f); auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int w = m->width, dir = r.range(0, e.rank - 1), dir2 = e.rank > 1 && r.coin(0.7) ? (dir + r.range(1, e.rank - 1)) % e.rank : dir;
  bool mirror = dir2 == dir || r.coin(); Idx lo{}, hi{}; for (int d = 0; d < 3; ++d) { lo[d] = d < e.rank ? r.range(-4, 4) : 0; hi[d] = lo[d] + (d < e.rank ? (d == dir ? r.range(1, 19) : r.range(1, 3)) : 1); }
  auto image = [&](Idx i, bool face) { if (mirror) i[dir] = lo[dir] + hi[dir] - (face ? 0 : 1) - i[dir]; std::swap(i[dir], i[dir2]); return i; };
  Idx clo = lo, chi = hi, flo = lo, fhi = hi; clo[dir] -= w; chi[dir] += w; fhi[dir] += 1; Idx Lo = lo, Hi = hi; std::swap(Lo[dir], Lo[dir2]); std::swap(Hi[dir], Hi[dir2]);
  Idx Clo = Lo, Chi = Hi, Flo = Lo, Fhi = Hi; Clo[dir2] -= w; Chi[dir2] += w; Fhi[dir2] += 1;
  Field q(e.rank, e.ncomp, clo, chi, 1, 2, 3), Q(e.rank, e.ncomp, Clo, Chi, 2, 1, 0), f(e.rank, e.ncons, flo, fhi, 1, 0, 0), F(e.rank, e.ncons, Flo, Fhi, 0, 1, 1); Vec a(std::size_t(e.ncomp)); Regime reg = m->order > 1 ? Regime::mild : r.choose({Regime::mild, Regime::moderate}); double smax = 1e-6;
  q.each([&](Idx i) { e.random(r, reg, a.data()); smax = std::max(smax, e.speed(a.data(), dir)); q.set(i, a.data()); e.swap_axes(a.data(), dir, dir2); if (mirror) e.mirror(a.data(), dir2); Q.set(image(i, false), a.data()); });
  double dx = r.logu(0.1, 10), dt = 0.2 * dx / smax; Pol p = m->policy(r), P = m->agree ? m->policy(r) : p; m->fluxes(p, f, q, dt, dx, dir); m->fluxes(P, F, Q, dt, dx, dir2);
  c.describe(fac.name + vm::fmt(" dir %d->%d mirror %d cells %d %s %s", dir, dir2, int(mirror), int(hi[dir] - lo[dir]), name(p), name(P))); double tol = 10 * sym_tol(fac.name, *m, e); Vec all; q.each([&](Idx i) { q.get(i, a.data()); all.insert(all.end(), a.begin(), a.end()); });
  Vec sc = flux_scale(*m, e, all.data(), int(all.size() / std::size_t(e.ncomp)), dir); Vec x(std::size_t(e.ncons)), y(x); long faces = 0;
  f.each([&](Idx i) { f.get(i, x.data()); e.swap_axes(x.data(), dir, dir2); F.get(image(i, true), y.data()); ++faces; for (int k = 0; k < e.ncons; ++k) c.close(y[k], (mirror ? -parity(e, k, dir2) : 1) * x[k], tol * sc[std::size_t(e.comps[k].var == "Momentum" ? e.idx("Momentum", dir) : k)], "flux", c.description + " " + e.comps[k].var); });
  double d1 = m->dts(p, q, dx, dir), d2 = m->dts(P, Q, dx, dir2); c.check(std::abs(d1 - d2) <= (e.fam == Fam::shallow ? 1e-2 : 1e-5) * d1, "dt", c.description + vm::str(" ", d1, " ", d2));
  c.event("faces", faces); c.event("method_" + fac.name); c.sig(c.description);
}
