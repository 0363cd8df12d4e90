// C05: the stable time step covers the fastest signal of every face and is the
// minimum over all faces, wherever the fastest face lies.
#include "riemann.hpp"
#include "stencil.hpp"
using namespace md;
namespace {
ref::Gas gas(const Eq& e, const double* q, int d) { return {q[0], q[e.idx("Momentum", d)] / q[0], q[e.idx("Pressure")]}; }
// fastest signal of the face between L and R by the harness's own formulas
double fastest(const std::string& fac, const Eq& e, const double* L, const double* R, int dir) {
  if (e.fam == Fam::advection) return std::abs(e.vel[dir]);
  if (e.fam == Fam::burgers) return L[0] > R[0] ? std::abs(0.5 * (L[0] + R[0])) : std::max(std::abs(L[0]), std::abs(R[0]));
  if (fac == "Hll/ShallowWater" || fac == "MusclHancockHll/ShallowWater" || starts(fac, "ThirdOrder")) return std::max(e.speed(L, dir), e.speed(R, dir));
  if (e.fam == Fam::shallow) { int im = e.idx("Momentum", dir); ref::Water l{L[0], L[im] / L[0]}, r{R[0], R[im] / R[0]}; auto s = ref::wedges(l, r, e.gravity, ref::wstar(l, r, e.gravity)); return std::max(std::abs(s[0]), std::abs(s[3])); }
  if (starts(fac, "Godunov/") || starts(fac, "MusclHancock/")) { auto l = gas(e, L, dir), r = gas(e, R, dir); auto s = ref::edges(l, r, e.gamma, ref::star(l, r, e.gamma)); return std::max(std::abs(s[0]), std::abs(s[3])); }
  double wl = std::sqrt(L[0]), wr = std::sqrt(R[0]), w = wl + wr; auto roe = [&](double a, double b) { return (wl * a + wr * b) / w; };
  int ie = e.idx("Energy"), ip = e.idx("Pressure"), ia = e.idx("SpeedOfSound"), im = e.idx("Momentum"); double ul = L[im + dir] / L[0], ur = R[im + dir] / R[0], ru = roe(ul, ur), al = L[ia], ar = R[ia], ra;
  bool hlle = starts(fac, "Hlle/") || starts(fac, "Muscl2ConsMinMod/") || starts(fac, "Muscl2PrimMinMod/"); // these use the Einfeldt signals
  if (e.fam == Fam::reacting) ra = std::sqrt(roe(al * al, ar * ar) + 0.5 * wl * wr / (w * w) * (ur - ul) * (ur - ul));
  else {
    double k = 0; for (int d = 0; d < e.rank; ++d) { double v = roe(L[im + d] / L[0], R[im + d] / R[0]); if (!hlle || d == dir) k += 0.5 * v * v; }
    ra = std::sqrt((e.gamma - 1) * (roe((L[ie] + L[ip]) / L[0], (R[ie] + R[ip]) / R[0]) - k)); if (!hlle) al = ar = std::max(al, ar);
  }
  return std::max(std::abs(std::min(ul - al, ru - ra)), std::abs(std::max(ur + ar, ru + ra)));
}
double tol_dt(const std::string& n, const Eq& e) { return e.fam == Fam::shallow && n.find("Hll") == std::string::npos ? 1e-2 : starts(n, "Godunov/Per") || starts(n, "MusclHancock/Per") ? 1e-5 : 1e-9; }
} // namespace

ORACLE("face", 60000, 1500000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int n = 2 * m->width, dir = r.range(0, e.rank - 1); Vec st; random_stencil(r, *m, any(r, *m), st); double dx = r.logu(0.001, 100);
  c.describe(fac.name + vm::fmt(" dir %d dx %g ", dir, dx) + show(e, st)); const double *L = st.data() + (m->width - 1) * e.ncomp, *R = L + e.ncomp; double want = dx / fastest(fac.name, e, L, R, dir), tol = tol_dt(fac.name, e); std::string how;
  auto judge = [&](double dt, const std::string& h) { how += h + " "; c.check(dt > 0 && (std::abs(dt - want) <= tol * want || (std::isinf(want) && dt > 1e12 * dx)), "value", fac.name + " " + h + vm::str(" got ", dt, " want ", want)); };
  if (m->has1) judge(m->dt1(st.data(), dx, dir), "cell");
  Vec s8(st.size() * W), o(W), q; int lane = r.range(0, W - 1);
  for (int l = 0; l < W; ++l) { if (l == lane) q = st; else random_stencil(r, *m, Regime::mild, q); for (std::size_t i = 0; i < st.size(); ++i) s8[i * W + std::size_t(l)] = q[i]; }
  if (m->has_dt8) { m->dt8(s8.data(), dx, dir, o.data()); judge(o[lane], "vector"); }
  if (m->masked_dt) {
    Vec face(W), vol(std::size_t(n * W)), o2(W); for (int l = 0; l < W; ++l) { face[l] = l == lane || r.coin() ? r.uniform(0.01, 1) : 0; for (int i = 0; i < n; ++i) vol[std::size_t(i * W + l)] = r.uniform(0.05, 1); }
    m->dtm(s8.data(), face.data(), vol.data(), dx, dir, o2.data()); judge(o2[lane], "masked");
    for (int l = 0; l < W; ++l) if (face[l] == 0) c.check(o2[l] > 0 && !std::isnan(o2[l]) && (!m->has_dt8 || o2[l] >= 0.999999 * o[l]), "closed-lane", fac.name + vm::str(" ", o2[l]));
  }
  c.event("method_" + fac.name); c.sig(fac.name + how + vm::fmt("%d %d %ld", dir, lane, c.index % 9973));
}

// patches with the limiting face planted anywhere
ORACLE("patch", 12000, 250000) {
  auto& r = c.rng; auto& fac = pick(c); auto m = fac.make(r); auto& e = m->eq(); int w = m->width, dir = r.range(0, e.rank - 1); Idx lo{}, hi{};
  for (int d = 0; d < 3; ++d) { lo[d] = d < e.rank ? r.range(-4, 4) : 0; hi[d] = lo[d] + (d < e.rank ? (d == dir ? r.range(1, 40) : r.range(1, 3)) : 1); }
  Idx clo = lo, chi = hi; clo[dir] -= w; chi[dir] += w; Field q(e.rank, e.ncomp, clo, chi, r.range(0, 2), r.range(0, 2), r.range(0, 3)); Vec a(std::size_t(e.ncomp)), st; bool quiet = r.coin(0.7); e.random(r, Regime::mild, a.data()); Vec base = a;
  q.each([&](Idx i) { if (quiet) q.set(i, base.data()); else { e.random(r, Regime::mild, a.data()); q.set(i, a.data()); } });
  // a fast cell at a random place of the inner cells, often on an edge
  Idx at{}; for (int d = 0; d < 3; ++d) { int nn = int(hi[d] - lo[d]); at[d] = lo[d] + (r.coin(0.3) ? 0 : r.coin(0.4) ? nn - 1 : r.range(0, nn - 1)); } bool edge = r.coin(0.3); if (edge) at[dir] = r.coin() ? lo[dir] - 1 : hi[dir];
  bool strong = m->order == 1 && r.coin(); e.random(r, strong ? Regime::moderate : Regime::mild, a.data()); if (e.fam != Fam::advection) set_velocity(e, a.data(), dir, (r.coin() ? 1 : -1) * (e.fam == Fam::burgers ? 5.0 : r.uniform(0.4, 0.9) * e.sound(a.data()))); q.set(at, a.data());
  double dx = r.logu(0.01, 10), want = std::numeric_limits<double>::infinity(); long faces = 0; Idx flo = lo, fhi = hi; fhi[dir] += 1; Field fl(e.rank, 1, flo, fhi, 0, 0, 0); Idx arg{};
  fl.each([&](Idx i) { Idx l = i; l[dir] -= 1; Vec x(std::size_t(e.ncomp)), y(x); q.get(l, x.data()); q.get(i, y.data()); double d = dx / fastest(fac.name, e, x.data(), y.data(), dir); ++faces; if (d < want) { want = d; arg = i; } });
  c.describe(fac.name + vm::fmt(" dir %d cells %d fast cell at %d of it", dir, int(hi[dir] - lo[dir]), int(at[dir] - lo[dir]))); double tol = tol_dt(fac.name, e); std::string used;
  for (int t = 0; t < 2; ++t) {
    Pol p = m->policy(r); double dt = m->dts(p, q, dx, dir); used += name(p);
    c.check(dt > 0 && std::abs(dt - want) <= tol * want, "value", c.description + " " + name(p) + vm::str(" got ", dt, " want ", want));
  }
  // splitting the patch does not matter
  if (hi[dir] - lo[dir] >= 1) {
    auto cut = lo[dir] + r.range(0, int(hi[dir] - lo[dir])); double mn = std::numeric_limits<double>::infinity();
    for (int part = 0; part < 2; ++part) { // faces [lo,cut] and [cut,hi]
      Idx pl = clo, ph = chi; if (part == 0) ph[dir] = cut + w; else pl[dir] = cut - w; Field s(e.rank, e.ncomp, pl, ph, 0, 0, 0); s.each([&](Idx i) { q.get(i, a.data()); s.set(i, a.data()); }); mn = std::min(mn, m->dts(m->policy(r), s, dx, dir));
    }
    c.check(std::abs(mn - want) <= tol * want, "split", c.description + vm::str(" got ", mn, " want ", want));
  }
  c.event("faces", faces); c.event(arg[dir] == hi[dir] ? "limit_last_face" : arg[dir] == lo[dir] ? "limit_first_face" : "limit_inside"); c.event("method_" + fac.name); c.sig(c.description + used);
}
