// C02: cell-by-cell, vectorised, masked and patch entry points agree.
#include "model.hpp"
using namespace md;
namespace {
Factory& pick(vm::Case& c) { return methods()[std::size_t(c.index % long(methods().size()))]; }
Regime regime(vm::Case& c, const Method& m) { return m.order > 1 ? Regime::mild : c.rng.choose({Regime::mild, Regime::moderate, Regime::strong}); }
void garbage(Rng& r, const Eq& e, double* q, int stride) {
  int k = r.range(0, 3);
  for (int c = 0; c < e.ncomp; ++c) q[c * stride] = k == 0 ? 0.0 : k == 1 ? std::nan("") : k == 2 ? -1e300 * r.u01() : r.uniform(-5, 5);
}
double eos_tol(const Eq& e) { return e.fam == Fam::reacting ? 1e-7 : 1e-12; }
} // namespace

ORACLE("states", 6000, 100000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq();
  Vec q(std::size_t(e.ncomp)), f(std::size_t(e.ncons)), q8(std::size_t(e.ncomp * W)), f8(std::size_t(e.ncons * W)), fm(f8), cons(std::size_t(e.ncons * W)), z(q), z8(q8), zm(q8);
  int dir = r.range(0, e.rank - 1); bool mask[W];
  std::vector<Vec> qs(W, q);
  for (int l = 0; l < W; ++l) { e.random(r, r.choose({Regime::mild, Regime::moderate, Regime::strong}), qs[l].data()); for (int k = 0; k < e.ncomp; ++k) q8[k * W + l] = qs[l][k]; mask[l] = r.coin(0.6); }
  for (int k = 0; k < e.ncons * W; ++k) cons[k] = q8[k];
  c.describe(e.name + vm::fmt(" dir %d", dir));
  e.flux8(q8.data(), dir, f8.data());
  e.complete8(cons.data(), z8.data());
  Vec g8 = q8, gc = cons;
  for (int l = 0; l < W; ++l) if (!mask[l]) { garbage(r, e, g8.data() + l, W); for (int k = 0; k < e.ncons; ++k) gc[k * W + l] = g8[k * W + l]; }
  bool hm = e.fluxm(g8.data(), mask, dir, fm.data()), hc = e.completem(gc.data(), mask, zm.data());
  for (int l = 0; l < W; ++l) {
    e.flux(qs[l].data(), dir, f.data());
    for (int k = 0; k < e.ncons; ++k) {
      double s = 1e-13 * (std::abs(f[k]) + e.speed(qs[l].data(), dir) * std::abs(qs[l][k]));
      c.close(f8[k * W + l], f[k], s, "flux-vector", e.comps[k].var);
      if (hm && mask[l]) c.close(fm[k * W + l], f[k], s, "flux-masked", e.comps[k].var);
    }
    Vec cl(std::size_t(e.ncons)); for (int k = 0; k < e.ncons; ++k) cl[k] = cons[k * W + l];
    e.complete(cl.data(), z.data());
    double es = 0; if (e.is_euler()) es = (std::abs(qs[l][e.idx("Energy")]) / qs[l][e.idx("Pressure")] + 1);
    for (int k = 0; k < e.ncomp; ++k) {
      double s = std::abs(z[k]) * (e.fam == Fam::reacting ? 1e-8 : 1e-14 * (1 + (k >= e.ncons ? es * 4 : 0)));
      if (e.fam == Fam::reacting && e.comps[k].var == "Energy") s = 1e-8 * (std::abs(z[k]) + z[e.idx("Pressure")]);
      c.close(z8[k * W + l], z[k], s, "complete-vector", e.comps[k].var);
      if (hc && mask[l]) c.close(zm[k * W + l], z[k], s, "complete-masked", e.comps[k].var);
      if (k < e.ncons && e.fam != Fam::reacting) c.close(z[k], cl[k], 1e-15 * std::abs(cl[k]), "complete-changes-conserved", e.comps[k].var);
    }
  }
  c.event(hm ? "masked" : "unmasked"); c.sig(e.name + vm::fmt("%d%d%ld", dir, e.ncomp, c.index % 997));
}

ORACLE("face", 16000, 400000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width;
  int dir = r.range(0, e.rank - 1); double dx = r.logu(0.01, 10); Regime reg = regime(c, *m);
  std::vector<Vec> st(W); Vec s8(std::size_t(n * e.ncomp * W)), f8(std::size_t(e.ncons * W)), fs(f8), d8(W), ds(W); double smax = 0; std::string kinds;
  for (int l = 0; l < W; ++l) { kinds += char('0' + random_stencil(r, *m, reg, st[l])); for (int i = 0; i < n; ++i) { smax = std::max(smax, e.speed(st[l].data() + i * e.ncomp, dir)); for (int k = 0; k < e.ncomp; ++k) s8[(i * e.ncomp + k) * W + l] = st[l][i * e.ncomp + k]; } }
  double dt = (m->order > 1 ? r.uniform(0, 0.25) : r.uniform(0, 1)) * dx / std::max(smax, 1e-6);
  c.describe(fac.name + vm::fmt(" dir %d dt %g dx %g regime %d ncomp %d kinds ", dir, dt, dx, int(reg), e.ncomp) + kinds);
  m->flux8(s8.data(), dt, dx, dir, f8.data()); m->dt8(s8.data(), dx, dir, d8.data());
  double tol = e.fam == Fam::reacting ? (m->order > 1 ? 2e-6 : 1e-10) : m->order > 1 ? 1e-11 : 1e-12;
  auto lane = [&](int l) { std::string s = vm::fmt("lane %d", l); for (int i = 0; i < n; ++i) s += e.show(st[l].data() + i * e.ncomp); return s; };
  Vec f(std::size_t(e.ncons)); const bool s1 = m->has1 && m->agree;
  for (int l = 0; l < W; ++l) {
    Vec sc = flux_scale(*m, e, st[l].data(), n, dir);
    if (s1) {
      m->flux(st[l].data(), dt, dx, dir, f.data()); ds[l] = m->dt1(st[l].data(), dx, dir);
      c.rel(d8[l], ds[l], e.fam == Fam::shallow ? 1e-9 : 1e-12, "dt-vector", fac.name);
      for (int k = 0; k < e.ncons; ++k) { fs[k * W + l] = f[k]; c.close(f8[k * W + l], f[k], tol * sc[k], ("flux-vector/" + fac.name).c_str(), fac.name + " " + e.comps[k].var + " " + lane(l)); }
    } else {
      // no cell-by-cell form: judge one lane against the same stencil in every lane
      Vec u8(s8.size()), g(f8.size()), dd(W); for (std::size_t i = 0; i < u8.size(); ++i) u8[i] = s8[i / W * W + std::size_t(l)];
      m->flux8(u8.data(), dt, dx, dir, g.data()); m->dt8(u8.data(), dx, dir, dd.data()); ds[l] = dd[0];
      for (int k = 0; k < e.ncons; ++k) { fs[k * W + l] = g[k * W]; c.close(f8[k * W + l], g[k * W], tol * sc[k], "flux-lanes", fac.name); }
      c.rel(d8[l], dd[0], 1e-12, "dt-lanes", fac.name);
    }
  }
  c.event("faces", W); c.event("method_" + fac.name); c.sig(fac.name + kinds + vm::fmt("%d %d", dir, int(reg)));
  if (!m->masked) return;
  // masked: some faces closed, neighbours of closed faces partly covered and filled with garbage
  Vec face(W), vol(std::size_t(n * W)), g8 = s8, fm(f8.size()), dm(W); Vec ex = fs, exd = ds; std::string pat;
  for (int l = 0; l < W; ++l) {
    bool open = r.coin(0.6); face[l] = open ? (r.coin() ? 1.0 : r.uniform(0.05, 1)) : 0.0;
    for (int i = 0; i < n; ++i) {
      bool inner = i == m->width - 1 || i == m->width, covered = open ? (!inner && r.coin(0.3)) : r.coin(0.5);
      vol[i * W + l] = covered ? 0.0 : r.coin() ? 1.0 : r.uniform(0.05, 1);
      if (covered) { garbage(r, e, g8.data() + (i * e.ncomp) * W + l, W); }
    }
    pat += open ? 'o' : 'x';
    if (open && m->width == 2 && (vol[l] == 0 || vol[3 * W + l] == 0)) {
      // a covered outer cell contributes no slope: same as a copy of its inner neighbour
      Vec t = st[l];
      if (vol[l] == 0) std::copy(t.begin() + e.ncomp, t.begin() + 2 * e.ncomp, t.begin());
      if (vol[3 * W + l] == 0) std::copy(t.begin() + 2 * e.ncomp, t.begin() + 3 * e.ncomp, t.begin() + 3 * e.ncomp);
      pat += 'c';
      if (s1) m->flux(t.data(), dt, dx, dir, f.data());
      else { Vec u8(s8.size()), g(f8.size()); for (std::size_t i = 0; i < u8.size(); ++i) u8[i] = t[i / W]; m->flux8(u8.data(), dt, dx, dir, g.data()); for (int k = 0; k < e.ncons; ++k) f[k] = g[k * W]; }
      for (int k = 0; k < e.ncons; ++k) ex[k * W + l] = f[k];
      exd[l] = s1 ? m->dt1(t.data(), dx, dir) : exd[l];
    }
  }
  c.describe(c.description + " mask " + pat);
  m->fluxm(g8.data(), face.data(), vol.data(), dt, dx, dir, fm.data());
  for (int l = 0; l < W; ++l) if (face[l] > 0) {
    Vec sc = flux_scale(*m, e, st[l].data(), n, dir);
    bool cov = n == 4 && (vol[l] == 0 || vol[3 * W + l] == 0);
    for (int k = 0; k < e.ncons; ++k) c.close(fm[k * W + l], ex[k * W + l], tol * sc[k], cov ? "flux-masked-covered" : "flux-masked", fac.name + " " + e.comps[k].var + " " + lane(l));
  }
  if (m->masked_dt) {
    m->dtm(g8.data(), face.data(), vol.data(), dx, dir, dm.data());
    for (int l = 0; l < W; ++l) if (face[l] > 0) c.rel(dm[l], exd[l], 1e-12, "dt-masked", fac.name);
      else c.check(dm[l] > 0, "dt-closed", "the time step of a closed face must not restrict the step: " + vm::str(dm[l]));
  }
  c.event("masked_faces", W); c.sig("m" + fac.name + pat);
}

ORACLE("patch", 3000, 60000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int w = m->width, R = e.rank;
  int dir = r.range(0, R - 1); double dx = r.logu(0.01, 10); Regime reg = regime(c, *m);
  Idx lo{}, hi{}; for (int d = 0; d < R; ++d) { lo[d] = r.range(-5, 5); hi[d] = lo[d] + (d == 0 ? r.range(1, 27) : r.range(1, R == 2 ? 5 : 3)); }
  Idx clo = lo, chi = hi; clo[dir] -= w; chi[dir] += w - 1; // cells of the faces [lo, hi)
  int extra = r.range(0, 1); Field q(R, e.ncomp, clo, chi, r.range(0, 2), r.range(0, 2), r.range(0, 2)), f(R, e.ncons, lo, hi, r.range(0, 2), r.range(0, 2), 0);
  (void)extra; double smax = 0;
  Vec a(std::size_t(e.ncomp)), b(a); e.random(r, reg, a.data());
  q.each([&](Idx i) { if (r.coin(0.8)) e.random(r, reg, a.data()); q.set(i, a.data()); smax = std::max(smax, e.speed(a.data(), dir)); });
  double dt = (m->order > 1 ? 0.2 : 0.8) * dx / std::max(smax, 1e-6);
  Pol p = m->policy(r), p2 = m->has1 ? r.choose({Pol::seq, Pol::omp, Pol::dflt}) : Pol::simd;
  c.describe(fac.name + vm::fmt(" dir %d faces %ld %ld %ld policy %s", dir, long(hi[0] - lo[0]), long(hi[1] - lo[1]), long(hi[2] - lo[2]), name(p)));
  // a used object must not remember earlier patches
  m->fluxes(p, f, q, dt, dx, dir);
  c.check(f.guards_intact() && q.guards_intact(), "writes-outside", "data outside of the views changed");
  double tol = e.fam == Fam::reacting ? (m->order > 1 ? 2e-6 : 1e-10) : m->order > 1 ? 1e-11 : 1e-12;
  const bool s1 = m->has1 && (m->agree || p == Pol::seq || p == Pol::omp || p == Pol::dflt);
  long k8 = 0; double mindt = std::numeric_limits<double>::infinity();
  f.each([&](Idx i) {
    Vec st(std::size_t(2 * w * e.ncomp)), ex(std::size_t(e.ncons));
    for (int k = 0; k < 2 * w; ++k) { Idx j = i; j[dir] += k - w; q.get(j, st.data() + k * e.ncomp); }
    if (s1) { m->flux(st.data(), dt, dx, dir, ex.data()); mindt = std::min(mindt, m->dt1(st.data(), dx, dir)); }
    else { Vec u8(st.size() * W), g(ex.size() * W), d(W); for (std::size_t x = 0; x < u8.size(); ++x) u8[x] = st[x / W]; m->flux8(u8.data(), dt, dx, dir, g.data()); for (int k = 0; k < e.ncons; ++k) ex[k] = g[k * W]; m->dt8(u8.data(), dx, dir, d.data()); mindt = std::min(mindt, d[0]); }
    Vec sc = flux_scale(*m, e, st.data(), 2 * w, dir);
    for (int k = 0; k < e.ncons; ++k) c.close(f.at(k, i), ex[k], tol * sc[k], "flux", fac.name + " " + e.comps[k].var + vm::fmt(" face (%ld,%ld,%ld)", long(i[0]), long(i[1]), long(i[2])));
    ++k8;
  });
  double d1 = m->dts(p, q, dx, dir), d2 = m->dts(p2, q, dx, dir);
  c.rel(d1, d2, 1e-9, "dt-policies", fac.name + vm::fmt(" %s vs %s", name(p), name(p2)));
  c.rel(d1, mindt, 1e-9, "dt-minimum", fac.name + vm::fmt(" %s", name(p)));
  // conversion of whole patches
  Field u(R, e.ncons, clo, chi, 1, 1, 0), z(R, e.ncomp, clo, chi, 1, 1, 0), z2 = z;
  q.each([&](Idx i) { for (int k = 0; k < e.ncons; ++k) u.at(k, i) = q.at(k, i); });
  Pol pc = r.choose({Pol::seq, Pol::simd, Pol::omp, Pol::ompsimd, Pol::dflt});
  e.complete_view(pc, z, u);
  c.check(z.guards_intact() && u.guards_intact(), "complete-writes-outside", "data outside of the views changed");
  z.each([&](Idx i) { Vec cl(std::size_t(e.ncons)), ex(std::size_t(e.ncomp)); u.get(i, cl.data()); e.complete(cl.data(), ex.data());
    double es = e.is_euler() ? std::abs(ex[e.idx("Energy")]) / ex[e.idx("Pressure")] + 1 : 1;
    for (int k = 0; k < e.ncomp; ++k) c.close(z.at(k, i), ex[k], e.fam == Fam::reacting ? 1e-8 * (std::abs(ex[k]) + (e.comps[k].var == "Energy" ? ex[e.idx("Pressure")] : 0)) : 1e-13 * es * std::abs(ex[k]), "complete", e.name + " " + e.comps[k].var + " " + name(pc)); });
  c.event("faces", k8); c.event(std::string("policy_") + name(p)); c.event("method_" + fac.name); c.sig(fac.name + vm::fmt("%d %ld %ld %ld %s", dir, long(hi[0] - lo[0]), long(hi[1] - lo[1]), long(hi[2] - lo[2]), name(p)));
}

// the two forms of the primitive reconstruction of the reacting gas
ORACLE("limiter", 8, 8) {
  auto& r = c.rng; std::vector<Factory*> fs; for (auto& f : methods()) if (f.name.rfind("MusclHancockPrim/IdealGas", 0) == 0) fs.push_back(&f);
  auto m = fs[std::size_t(c.index) % fs.size()]->make(r); auto& e = m->eq(); Vec st(std::size_t(4 * e.ncomp)), s8(st.size() * W), f(std::size_t(e.ncons)), f8(f.size() * W), q(std::size_t(e.ncomp));
  // monotone pressure with an uneven slope
  e.random(r, Regime::mild, q.data()); std::vector<Vec> v(4, q); for (auto& x : v) e.random(r, Regime::mild, x.data());
  int P = e.idx("Pressure"); std::sort(v.begin(), v.end(), [&](const Vec& a, const Vec& b) { return a[P] < b[P]; });
  for (int i = 0; i < 4; ++i) std::copy(v[i].begin(), v[i].end(), st.begin() + i * e.ncomp);
  for (std::size_t i = 0; i < s8.size(); ++i) s8[i] = st[i / W];
  m->flux(st.data(), 1e-9, 1.0, 0, f.data()); m->flux8(s8.data(), 1e-9, 1.0, 0, f8.data()); Vec sc = flux_scale(*m, e, st.data(), 4, 0);
  for (int k = 0; k < e.ncons; ++k) c.close(f8[k * W], f[k], 1e-7 * sc[k], "scalar-vector", e.comps[k].var);
  c.sig(vm::fmt("%ld", c.index));
}
