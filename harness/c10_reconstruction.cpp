// C10: slope limiting, reconstruction and the accuracy of the second-order methods.
#include "ad_gas.hpp"
#include "ad_mix.hpp"
#include "stencil.hpp"
#include "stepping.hpp"
using namespace md;
namespace {
constexpr double inf = std::numeric_limits<double>::infinity();
double slope(Rng& r) { int k = r.range(0, 9); double s = r.coin() ? 1 : -1; return k == 0 ? 0.0 : k == 1 ? s * r.logu(1e-12, 1e-3) : k == 2 ? s * r.logu(1e3, 1e12) : s * r.logu(0.01, 100); }
// own definitions of the limited slope
double ref_limited(int kind, double a, double b) {
  switch (kind) {
  case 0: return a * b > 0 ? 0.5 * (a + b) : 0.0;
  case 1: return 0.0;
  case 2: return a * b > 0 ? (std::abs(a) < std::abs(b) ? a : b) : 0.0;
  default: return a * b > 0 ? 2 / (1 / a + 1 / b) : 0.0;
  }
}
const char* lname[] = {"unlimited", "upwind", "minmod", "vanleer"};
template <typename L> void limit(int kind, const double* a, const double* b, double* s1, double* s8) {
  fub::CentralDifferenceGradient<L> g; for (int l = 0; l < W; ++l) s1[l] = g.ComputeGradient(a[l], b[l]); fub::Array1d x = g.ComputeGradient(to_arr(a), to_arr(b)); for (int l = 0; l < W; ++l) s8[l] = x(l); (void)kind;
}
void limit(int kind, const double* a, const double* b, double* s1, double* s8) {
  if (kind == 0) limit<fub::NoLimiter2>(kind, a, b, s1, s8); else if (kind == 1) limit<fub::UpwindLimiter>(kind, a, b, s1, s8); else if (kind == 2) limit<fub::MinModLimiter>(kind, a, b, s1, s8); else limit<fub::VanLeerLimiter>(kind, a, b, s1, s8);
}
} // namespace

ORACLE("limiters", 300000, 6000000) {
  auto& r = c.rng; int kind = r.range(0, 3); double a[W], b[W], s1[W], s8[W], t1[W], t8[W], as[W], bs[W];
  for (int l = 0; l < W; ++l) { a[l] = slope(r); b[l] = r.coin(0.1) ? a[l] : r.coin(0.1) ? -a[l] : slope(r); }
  c.describe(lname[kind]); limit(kind, a, b, s1, s8);
  for (int l = 0; l < W; ++l) {
    std::string w = vm::str(lname[kind], " slopes ", a[l], " ", b[l], " -> ", s1[l], " ", s8[l]); double m = std::min(std::abs(a[l]), std::abs(b[l])), M = std::max(std::abs(a[l]), std::abs(b[l])), want = ref_limited(kind, a[l], b[l]);
    for (double s : {s1[l], s8[l]}) {
      c.check(std::isfinite(s), "finite", w);
      if (!(a[l] * b[l] > 0)) c.check(s == 0, "extremum", w); else if (kind != 1) c.check(s * a[l] >= 0 && s * b[l] >= 0, "sign", w);
      c.check(std::abs(s) <= (kind == 2 ? m : kind == 3 ? 2 * m : M) * (1 + 1e-12), "bound", w);
      c.check(std::abs(s - want) <= 1e-12 * std::abs(want), "value", w + vm::str(" want ", want));
    }
  }
  limit(kind, b, a, t1, t8); for (int l = 0; l < W; ++l) { c.check(std::abs(t1[l] - s1[l]) <= 1e-12 * std::abs(s1[l]) && std::abs(t8[l] - s8[l]) <= 1e-12 * std::abs(s8[l]), "symmetric", c.description); }
  double k = std::ldexp(r.coin() ? 1.0 : -1.0, r.range(-20, 20)); for (int l = 0; l < W; ++l) { as[l] = k * a[l]; bs[l] = k * b[l]; }
  limit(kind, as, bs, t1, t8); for (int l = 0; l < W; ++l) { c.check(std::abs(t1[l] - k * s1[l]) <= 1e-12 * std::abs(k * s1[l]) && std::abs(t8[l] - k * s8[l]) <= 1e-12 * std::abs(k * s8[l]), "homogeneous", c.description); }
  c.event(lname[kind], W); c.sig(vm::str(kind, a[0], b[0]));
}

namespace {
// the limiters that work on conservative stencils
template <typename E, typename L> void stencil_limiter(vm::Case& c, int kind, EqAdapter<E>& e) {
  auto& r = c.rng; L lim{}; int n = e.ncomp; std::array<fub::Complete<E>, 3> q; std::array<fub::CompleteArray<E>, 3> qa; q.fill(fub::Complete<E>(e.eqn)); qa.fill(fub::CompleteArray<E>(e.eqn));
  std::array<Vec, 3> s; Vec s8[3]; for (auto& x : s8) x.assign(std::size_t(n * W), 0);
  int lane = r.range(0, W - 1); bool masked = r.coin(); bool mask[W];
  for (int l = 0; l < W; ++l) { mask[l] = r.coin(0.7); std::array<Vec, 3> t; for (int i = 0; i < 3; ++i) { t[i].assign(std::size_t(n), 0.0); e.random(r, r.choose({Regime::mild, Regime::moderate, Regime::strong}), t[i].data()); if (i && r.coin(0.1)) t[i] = t[i - 1]; } if (l == lane) s = t; for (int i = 0; i < 3; ++i) for (int k = 0; k < n; ++k) s8[i][std::size_t(k * W + l)] = t[i][std::size_t(k)]; }
  for (int i = 0; i < 3; ++i) { unflat(q[i], s[i].data()); unflat8(qa[i], s8[i].data()); }
  fub::Conservative<E> g(e.eqn); fub::ConservativeArray<E> ga(e.eqn); Vec o(std::size_t(e.ncons)), o8(std::size_t(e.ncons * W));
  lim.ComputeLimitedSlope(g, fub::span<const fub::Complete<E>, 3>(q)); flat(g, o.data());
  if (masked) lim.ComputeLimitedSlope(ga, fub::span<const fub::CompleteArray<E>, 3>(qa), to_mask(mask)); else lim.ComputeLimitedSlope(ga, fub::span<const fub::CompleteArray<E>, 3>(qa)); flat8(ga, o8.data());
  for (int k = 0; k < e.ncons; ++k) for (int l = 0; l < W; ++l) {
    double a = s8[1][k * W + l] - s8[0][k * W + l], b = s8[2][k * W + l] - s8[1][k * W + l]; double want = kind == 4 ? 0.5 * (a + b) : ref_limited(kind, a, b), tol = 1e-11 * std::max(std::abs(a), std::abs(b)) + 0.0; std::string w = e.name + vm::str(" kind ", kind, " component ", k, " slopes ", a, " ", b, masked ? " masked" : "");
    if (l == lane) c.check(std::abs(o[k] - want) <= tol, "value", w + vm::str(" got ", o[k], " want ", want)); if (masked && !mask[l]) want = 0; c.check(std::abs(o8[k * W + l] - want) <= tol, "vector", w + vm::str(" got ", o8[k * W + l], " want ", want));
  }
}
template <typename E> void stencil_limiters(vm::Case& c, EqAdapter<E>& e) {
  int kind = c.rng.range(1, 4); c.describe(e.name + vm::str(" limiter ", kind)); switch (kind) { case 1: stencil_limiter<E, fub::NoGradient>(c, 1, e); break; case 2: stencil_limiter<E, fub::MinMod>(c, 2, e); break; case 3: stencil_limiter<E, fub::VanLeer>(c, 3, e); break; default: stencil_limiter<E, fub::NoLimiter>(c, 4, e); }
  c.sig(c.description + std::to_string(c.index));
}
// primitive variables of a flat complete state: rho, u.., p, Y.., Z..
template <typename E> Vec prim(const EqAdapter<E>& e, const double* q) { Vec w{q[0]}; for (int d = 0; d < e.rank; ++d) w.push_back(q[1 + d] / q[0]); w.push_back(q[e.idx("Pressure")]); for (int i = 0; i < e.nspecies; ++i) w.push_back(q[e.idx("Species", i)] / q[0]); for (int i = 0; i < e.npassive; ++i) w.push_back(q[e.idx("PassiveScalars", i)] / q[0]); return w; }
// -A(w) w_x for the primitive Euler equations
template <typename E> Vec rate(const EqAdapter<E>& e, const Vec& w, const Vec& s, int d) {
  Vec t(w.size()); int R = e.rank; double u = w[1 + d]; for (std::size_t i = 0; i < w.size(); ++i) t[i] = -u * s[i]; t[0] -= w[0] * s[1 + d]; t[1 + d] -= s[R + 1] / w[0]; t[R + 1] -= e.gamma * w[R + 1] * s[1 + d]; return t;
}
// flat forms of slopes
template <typename S> Vec flatv(const S& s, std::size_t n) { Vec v(n); flat(s, v.data()); return v; }
enum { CONS, PRIM, CHAR };
// runs gradient and reconstruction of one stencil in both forms
template <typename E, typename G, typename Rec> void reconstruct(vm::Case& c, int vars, int lim, EqAdapter<E>& e, const char* name) {
  auto& r = c.rng; int n = e.ncomp, R = e.rank, dir = r.range(0, R - 1), ns = e.nspecies, np = e.npassive; double dx = r.logu(0.01, 10); bool smooth = r.coin(0.4), uniform = !smooth && r.coin(0.2); double h = smooth ? 1e-3 : 1;
  std::array<fub::Complete<E>, 3> q; std::array<fub::CompleteArray<E>, 3> qa; q.fill(fub::Complete<E>(e.eqn)); qa.fill(fub::CompleteArray<E>(e.eqn)); std::array<Vec, 3> s; Vec s8[3]; for (auto& x : s8) x.assign(std::size_t(n * W), 0); int lane = r.range(0, W - 1);
  Vec base(std::size_t(n), 0.0), left(base), t(base);
  for (int l = 0; l < W; ++l) {
    std::array<Vec, 3> st; e.random(r, Regime::mild, base.data()); e.random(r, Regime::mild, left.data());
    for (int i = 0; i < 3; ++i) { if (uniform) st[i] = base; else if (smooth) { st[i] = base; double th = h * (i - 1); for (int k = 0; k < e.ncons; ++k) st[i][k] = base[k] + th * (left[k] - base[k]) + 0.3 * th * th * base[k]; t = st[i]; e.complete(t.data(), st[i].data()); } else { st[i] = base; e.random(r, Regime::mild, st[i].data()); } }
    if (l == lane) s = st; for (int i = 0; i < 3; ++i) for (int k = 0; k < n; ++k) s8[i][std::size_t(k * W + l)] = st[i][std::size_t(k)];
  }
  for (int i = 0; i < 3; ++i) { unflat(q[i], s[i].data()); unflat8(qa[i], s8[i].data()); }
  std::string w = e.name + vm::fmt(" %s %s dir %d dx %g%s", name, lname[lim], dir, dx, uniform ? " uniform" : smooth ? " smooth" : ""); c.describe(w);
  G grad(e.eqn); Rec rec(e.eqn); typename G::Gradient g(e.eqn); typename G::GradientArray ga(e.eqn); fub::Direction D = fub::Direction(dir);
  grad.ComputeGradient(g, fub::span<const fub::Complete<E>, 3>(q), dx, D); grad.ComputeGradient(ga, fub::span<const fub::CompleteArray<E>, 3>(qa), dx, D);
  std::size_t ng = vars == CONS ? std::size_t(e.ncons) : std::size_t(R + 2 + ns + np); Vec v = flatv(g, ng), v8(ng * W); flat8(ga, v8.data());
  // one-sided differences in the chosen variables
  auto diff = [&](const double* a, const double* b) {
    Vec d; if (vars == CONS) { for (int k = 0; k < e.ncons; ++k) d.push_back((b[k] - a[k]) / dx); return d; }
    Vec x = prim(e, a), y = prim(e, b); for (std::size_t i = 0; i < x.size(); ++i) d.push_back((y[i] - x[i]) / dx); if (vars == PRIM) return d;
    double rc = s[1][0] * e.sound(s[1].data()), c2 = e.sound(s[1].data()) * e.sound(s[1].data()); Vec k{d[R + 1] - rc * d[1 + dir], d[0] - d[R + 1] / c2}; for (int i = 1; i < R; ++i) k.push_back(d[1 + (dir + i) % R]); k.push_back(d[R + 1] + rc * d[1 + dir]); for (int i = 0; i < ns + np; ++i) k.push_back(d[R + 2 + i]); return k;
  };
  Vec dl = diff(s[0].data(), s[1].data()), dr = diff(s[1].data(), s[2].data()); double scale = 0;
  auto vec_close = [&](const Vec& a, const Vec& b8, const char* key) { double m = 0; for (double x : a) m = std::max(m, std::abs(x)); for (std::size_t i = 0; i < a.size(); ++i) { double y = b8[i * W + std::size_t(lane)]; c.check(std::abs(a[i] - y) <= 1e-9 * m + 1e-12 * scale, key, w + vm::str(" entry ", i, " scalar ", a[i], " vector ", y)); } };
  Vec sz(ng); { Vec p0 = vars == CONS ? Vec(s[1].begin(), s[1].begin() + e.ncons) : prim(e, s[1].data()); for (double x : p0) scale = std::max(scale, std::abs(x) / dx); if (vars == CHAR) scale = std::max(scale, std::max(s[1][0] * e.sound(s[1].data()), 1.0) * 2 * e.sound(s[1].data()) / dx); }
  // the slopes in the order of the variables of the state (minus, zero..., plus)
  double eps = 1e-12 * scale; bool order_ok = true;
  for (std::size_t i = 0; i < ng; ++i) { std::size_t j = i; (void)order_ok; double want = ref_limited(lim, dl[j], dr[j]); bool extremum = !(dl[j] * dr[j] > 0);
    if (std::abs(dl[j]) < eps || std::abs(dr[j]) < eps) { c.check(std::abs(v[i]) <= 2 * eps + (lim == 0 ? 0.5 * (std::abs(dl[j]) + std::abs(dr[j])) : 0), "flat", w + vm::str(" entry ", i, " ", v[i], " differences ", dl[j], " ", dr[j])); continue; }
    if (extremum) c.check(v[i] == 0, "extremum", w + vm::str(" entry ", i, " ", v[i], " differences ", dl[j], " ", dr[j])); c.check(std::abs(v[i] - want) <= 1e-9 * std::abs(want) + 10 * eps, "slope", w + vm::str(" entry ", i, " got ", v[i], " want ", want, " differences ", dl[j], " ", dr[j])); }
  vec_close(v, v8, "slope-vector");
  // half-step reconstruction
  double a = e.speed(s[1].data(), dir), dt = r.uniform(0, 0.25) * dx / a; if (r.coin(0.1)) dt = 0; for (fub::Side side : {fub::Side::Lower, fub::Side::Upper}) {
    double sg = side == fub::Side::Upper ? 1 : -1; fub::Complete<E> out(e.eqn); fub::CompleteArray<E> outa(e.eqn); rec.Reconstruct(out, q[1], g, fub::Duration(dt), dx, D, side); rec.Reconstruct(outa, qa[1], ga, fub::Duration(dt), dx, D, side);
    Vec o = flatv(out, std::size_t(n)), o8(std::size_t(n * W)); flat8(outa, o8.data()); for (int k = 0; k < n; ++k) { double y = o8[k * W + lane]; double big = e.comps[std::size_t(k)].var == "Momentum" ? s[1][0] * e.sound(s[1].data()) : e.comps[std::size_t(k)].var == "PassiveScalars" ? s[1][0] : 0; c.check(std::abs(o[k] - y) <= 1e-9 * (std::abs(o[k]) + std::abs(s[1][k]) + big), "face-vector", w + vm::str(" component ", k, " scalar ", o[k], " vector ", y)); }
    if (uniform) { for (int k = 0; k < n; ++k) c.check(std::abs(o[k] - s[1][k]) <= 1e-11 * (std::abs(s[1][k]) + std::abs(s[1][e.idx("Energy")])), "uniform", w + vm::str(" component ", k, " ", o[k], " from ", s[1][k])); continue; }
    // linearised exact solution at the face half a step later
    Vec p0 = prim(e, s[1].data()), sl(p0.size());
    if (vars == PRIM) sl = v; else if (vars == CHAR) { double rc = s[1][0] * e.sound(s[1].data()), c2 = e.sound(s[1].data()) * e.sound(s[1].data()); double dp = 0.5 * (v[0] + v[R + 1]); sl[R + 1] = dp; sl[1 + dir] = 0.5 * (v[R + 1] - v[0]) / rc; sl[0] = v[1] + dp / c2; for (int i = 1; i < R; ++i) sl[1 + (dir + i) % R] = v[1 + i]; for (int i = 0; i < ns + np; ++i) sl[R + 2 + i] = v[R + 2 + i]; }
    else { double dr_ = v[0], k2 = 0, dk = 0; sl[0] = dr_; for (int d = 0; d < R; ++d) { sl[1 + d] = (v[1 + d] - p0[1 + d] * dr_) / p0[0]; k2 += p0[1 + d] * p0[1 + d]; dk += p0[1 + d] * v[1 + d]; } sl[R + 1] = (e.gamma - 1) * (v[R + 1] - dk + 0.5 * k2 * dr_); for (int i = 0; i < ns + np; ++i) sl[R + 2 + i] = (v[R + 2 + i] - p0[R + 2 + i] * dr_) / p0[0]; }
    Vec tr = rate(e, p0, sl, dir), po = prim(e, o.data()); double us = e.sound(s[1].data()); double rel = 0; for (std::size_t i = 0; i < p0.size(); ++i) { double z = i >= 1 && int(i) <= R ? us : int(i) > R + 1 ? 1 : std::abs(p0[i]); rel = std::max(rel, std::abs(sl[i]) * dx / z); }
    for (std::size_t i = 0; i < p0.size(); ++i) { double want = p0[i] + sg * 0.5 * dx * sl[i] + 0.5 * dt * tr[i], z = i >= 1 && int(i) <= R ? us : int(i) > R + 1 ? 1 : std::abs(p0[i]); double tol = (vars == CONS ? 12 * rel * rel : 0) + 1e-10; if (vars == CONS && !smooth) continue; c.check(std::abs(po[i] - want) <= tol * z, "half-step", w + vm::fmt(" side %g dt %g ", sg, dt) + vm::str(" entry ", i, " got ", po[i], " want ", want, " variation ", rel)); }
  }
  c.event(std::string(name) + "_" + lname[lim]); c.sig(w + vm::fmt("%g", s[0][0]));
}
template <typename E> void reconstructions(vm::Case& c, EqAdapter<E>& e) {
  using namespace fub; using M = CentralDifferenceGradient<MinModLimiter>; using V = CentralDifferenceGradient<VanLeerLimiter>; using N = CentralDifferenceGradient<NoLimiter2>; using U = CentralDifferenceGradient<UpwindLimiter>;
  using RC = ConservativeReconstruction<E>; using RP = PrimitiveReconstruction<E>; using RK = CharacteristicsReconstruction<E>;
  switch (c.rng.range(0, 8)) {
  case 0: return reconstruct<E, ConservativeGradient<E, M>, RC>(c, CONS, 2, e, "conservative");
  case 1: return reconstruct<E, ConservativeGradient<E, V>, RC>(c, CONS, 3, e, "conservative");
  case 2: return reconstruct<E, PrimitiveGradient<E, M>, RP>(c, PRIM, 2, e, "primitive");
  case 3: return reconstruct<E, PrimitiveGradient<E, V>, RP>(c, PRIM, 3, e, "primitive");
  case 4: return reconstruct<E, CharacteristicsGradient<E, M>, RK>(c, CHAR, 2, e, "characteristic");
  case 5: return reconstruct<E, CharacteristicsGradient<E, V>, RK>(c, CHAR, 3, e, "characteristic");
  case 6: return reconstruct<E, CharacteristicsGradient<E, N>, RK>(c, CHAR, 0, e, "characteristic");
  case 7: return reconstruct<E, ConservativeGradient<E, N>, RC>(c, CONS, 0, e, "conservative");
  default: return reconstruct<E, PrimitiveGradient<E, U>, RP>(c, PRIM, 1, e, "primitive");
  }
}
// the inverse of the primitive reconstruction
template <typename E> void inverse(vm::Case& c, EqAdapter<E>& e) {
  auto& r = c.rng; int R = e.rank, dir = r.range(0, R - 1); double dx = r.logu(0.01, 10); Vec q(std::size_t(e.ncomp)); e.random(r, Regime::mild, q.data()); Vec p0 = prim(e, q.data()); fub::Primitive<E> g(e.eqn); Vec s(p0.size()); double us = e.sound(q.data());
  for (std::size_t i = 0; i < s.size(); ++i) { double z = i >= 1 && int(i) <= R ? us : int(i) > R + 1 ? 1 : p0[i]; s[i] = r.coin(0.15) ? 0 : r.uniform(-0.3, 0.3) * z / dx; }
  unflat(g, s.data()); fub::Complete<E> a(e.eqn), b(e.eqn), z(e.eqn); unflat(a, q.data()); fub::PrimitiveReconstruction<E> rec(e.eqn); fub::Side side = r.coin() ? fub::Side::Lower : fub::Side::Upper; double dt = r.uniform(0, 0.4) * dx / e.speed(q.data(), dir);
  c.describe(e.name + vm::fmt(" dir %d side %d drho %g du %g dp %g", dir, int(side), s[0], s[1 + dir], s[R + 1])); rec.Reconstruct(b, a, g, fub::Duration(dt), dx, fub::Direction(dir), side); rec.ReconstructInvers(z, b, g, fub::Duration(dt), dx, fub::Direction(dir), side); Vec o = prim(e, flatv(z, q.size()).data());
  for (std::size_t i = 0; i < o.size(); ++i) { double zz = i >= 1 && int(i) <= R ? us : int(i) > R + 1 ? 1 : p0[i]; c.check(std::abs(o[i] - p0[i]) <= 1e-9 * zz, "identity", c.description + vm::str(" variable ", i, " got ", o[i], " want ", p0[i])); }
  c.sig(c.description);
}
template <typename F> void any_gas(vm::Case& c, F f) {
  auto& r = c.rng; switch (r.range(0, 4)) { case 0: return f(*make_gas<1>(r)); case 1: return f(*make_gas<2>(r)); case 2: return f(*make_gas<3>(r)); case 3: return f(*make_mix<1>(r)); default: return f(*make_mix<2>(r)); }
}
} // namespace
ORACLE("stencil_limiters", 60000, 1500000) { any_gas(c, [&](auto& e) { stencil_limiters(c, e); }); }
ORACLE("reconstruction", 120000, 3000000) { any_gas(c, [&](auto& e) { reconstructions(c, e); }); }
ORACLE("inverse", 40000, 1000000) { any_gas(c, [&](auto& e) { inverse(c, e); }); }

namespace {
// a smooth field of conserved variables: convex combinations of three admissible states
struct Smooth {
  Eq& e; Vec a, b, d; double k[2], ph[2]; double T = 0; // wavelength for periodic fields
  Smooth(Rng& r, Eq& eq, Regime reg) : e(eq), a(std::size_t(eq.ncomp)), b(a), d(a) { e.random(r, reg, a.data()); e.random(r, reg, b.data()); e.random(r, reg, d.data()); for (int i = 0; i < 2; ++i) { k[i] = r.uniform(0.5, 1.5) * (r.coin() ? 1 : -1); ph[i] = r.uniform(0, 6.3); } }
  Vec at(double x) const { double s = 0.25 + 0.2 * std::sin(k[0] * x + ph[0]), t = 0.25 + 0.2 * std::sin(k[1] * x + ph[1]); Vec u(std::size_t(e.ncomp)), q(u); for (int i = 0; i < e.ncons; ++i) u[i] = (1 - s - t) * a[i] + s * b[i] + t * d[i]; e.complete(u.data(), q.data()); return q; }
};
std::vector<Factory*> muscl(bool third) { Rng r(1); std::vector<Factory*> v; for (auto& f : methods()) if (f.name.find("Muscl") != std::string::npos || (third && f.name.find("ThirdOrder") != std::string::npos)) v.push_back(&f); return v; }
} // namespace
ORACLE("truncation", 60000, 1500000) {
  static auto fs = muscl(false); auto& r = c.rng; auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int dir = r.range(0, e.rank - 1); Smooth s(r, e, Regime::mild); double x0 = r.uniform(-3, 3), h = 1e-4;
  Vec qf = s.at(x0), f(std::size_t(e.ncons)), fl(f), fr(f), U(qf), num; double eps = 1e-4; e.exact_flux(s.at(x0 - eps).data(), dir, fl.data()); e.exact_flux(s.at(x0 + eps).data(), dir, fr.data());
  double speed = e.speed(qf.data(), dir); if (!(speed > 1e-3)) speed = 1e-3; double dt = (r.coin(0.1) ? 0 : r.uniform(0, 0.9)) * h / speed; for (int k = 0; k < e.ncons; ++k) U[k] -= 0.5 * dt * (fr[k] - fl[k]) / (2 * eps); Vec Q(qf); e.complete(U.data(), Q.data()); e.exact_flux(Q.data(), dir, f.data());
  Vec st; for (int i = 0; i < 4; ++i) { Vec q = s.at(x0 + (i - 1.5) * h); st.insert(st.end(), q.begin(), q.end()); }
  std::string how = eval(c, *m, st, dt, h, dir, num); Vec all = st; for (auto* v : {&s.a, &s.b, &s.d}) all.insert(all.end(), v->begin(), v->end()); Vec sc = flux_scale(*m, e, all.data(), 7, dir); double worst = 0;
  for (int k = 0; k < e.ncons; ++k) { double err = std::abs(num[k] - f[k]) / (sc[k] + 1e-30); worst = std::max(worst, err); c.check(err <= 3 * h * h, "order-" + fac.name, fac.name + " " + how + vm::fmt(" dir %d cfl %.3g ", dir, dt * speed / h) + e.comps[k].var + vm::str(" flux ", num[k], " second-order value ", f[k], " relative error ", err, " allowed ", 3 * h * h) + show(e, st)); }
  c.describe(fac.name + " " + how + vm::fmt(" dir %d worst %g", dir, worst)); c.event("method_" + fac.name); c.sig(fac.name + how + vm::fmt("%d%.9g", dir, x0));
}
// second-order runs of the scalar equations create no new extrema
ORACLE("no_new_extrema", 20000, 600000) {
  auto& r = c.rng; static std::vector<Factory*> fs = [] { std::vector<Factory*> v; for (auto* f : muscl(false)) if (f->fam == Fam::advection || f->fam == Fam::burgers) v.push_back(f); return v; }();
  auto& fac = *fs[std::size_t(c.index) % fs.size()]; auto m = fac.make(r); auto& e = m->eq(); int R = e.rank, dir = r.range(0, R - 1), n = r.range(2, 40), steps = r.range(1, 12); Idx lo{}, hi{1, 1, 1}; lo[dir] = r.range(-5, 5); hi[dir] = lo[dir] + n; Field q(R, e.ncomp, lo, hi, 3, 3, 0); int kind = r.range(0, 2); double k = r.uniform(0.2, 2); Pol p = m->policy(r);
  q.each([&](Idx i) { q.at(0, i) = kind == 0 ? r.uniform(-1, 1) : kind == 1 ? (r.coin() ? 1.0 : -0.5) : std::sin(k * double(i[dir])); }); double dx = r.logu(0.01, 10), cfl = r.coin(0.3) ? (e.fam == Fam::burgers ? 0.5 : 1) : r.uniform(0.05, e.fam == Fam::burgers ? 0.5 : 1);
  c.describe(fac.name + vm::fmt(" dir %d cells %d kind %d cfl %g steps %d %s", dir, n, kind, cfl, steps, name(p)));
  auto tv = [&] { double t = 0; q.each([&](Idx i) { Idx j = i; j[dir] = j[dir] + 1 == hi[dir] ? lo[dir] : j[dir] + 1; t += std::abs(q.at(0, j) - q.at(0, i)); }); return t; }; auto range = [&] { double a = 1e300, b = -1e300; q.each([&](Idx i) { a = std::min(a, q.at(0, i)); b = std::max(b, q.at(0, i)); }); return std::make_pair(a, b); };
  for (int s = 0; s < steps; ++s) {
    auto t0 = tv(); auto r0 = range(); periodic(q); Field gr = grown(q, dir, m->width); Idx fhi = q.hi; fhi[dir] += 1; Field f(R, e.ncons, q.lo, fhi, 1, 1, 0); double dts = m->dts(p, gr, dx, dir); if (!std::isfinite(dts)) break; double dt = cfl * dts; m->fluxes(p, f, gr, dt, dx, dir); Field out = q; update(Pol::seq, out, q, f, dt, dx, dir); q = out;
    auto t1 = tv(); auto r1 = range(); c.check(t1 <= t0 * (1 + 1e-12) + 1e-13, "total-variation", c.description + vm::str(" step ", s, " ", t0, " -> ", t1)); c.check(r1.first >= r0.first - 1e-13 && r1.second <= r0.second + 1e-13, "range", c.description + vm::str(" step ", s, " [", r0.first, ",", r0.second, "] -> [", r1.first, ",", r1.second, "]"));
  }
  c.event("steps", steps); c.sig(c.description);
}
// whole runs: an advected smooth profile under grid refinement
ORACLE("convergence", 400, 8000) {
  static auto fs = muscl(false); auto& r = c.rng; auto& fac = *fs[std::size_t(c.index) % fs.size()]; long seed = r.range(0, 1 << 30); double err[2]; int ns[2] = {24, 96}; std::string how; if (fac.fam == Fam::reacting && c.index % 4) return c.check(true, "skip", ""), c.sig("skipped reacting"), void();
  for (int g = 0; g < 2; ++g) {
    c.describe(fac.name); Rng r2{std::uint64_t(seed)}; auto m = fac.make(r2); auto& e = m->eq(); int R = e.rank, dir = r2.range(0, R - 1), n = ns[g]; bool burgers = e.fam == Fam::burgers, shallow = e.fam == Fam::shallow; Vec base(std::size_t(e.ncomp)); e.random(r2, Regime::mild, base.data()); double L = 1, amp = r2.uniform(0.05, 0.2), u = (r2.coin() ? 1 : -1) * r2.uniform(0.5, 1) * (e.is_euler() ? e.sound(base.data()) * 0.5 : shallow ? std::sqrt(10 * base[0]) * 0.5 : 1);
    double V = e.fam == Fam::advection ? e.velocity(base.data(), dir) : u; double ph = r2.uniform(0, 6.28); Pol p = m->policy(r2);
    // exact profiles: entropy wave (gas), transverse shear wave (shallow water), advected hump, Burgers before the shock
    auto val = [&](double x) { return amp * std::sin(2 * 3.14159265358979 * x / L + ph); };
    if (shallow && R < 2) { c.sig("no shear wave"); return; }
    auto fill = [&](double x, double* q) {
      std::copy(base.begin(), base.end(), q);
      if (e.fam == Fam::advection) { q[0] = 1 + val(x); return; } if (burgers) { q[0] = u * (1 + val(x)); return; }
      if (shallow) { int im = e.idx("Momentum", dir), it = e.idx("Momentum", 1 - dir); q[im] = q[0] * u; q[it] = q[0] * val(x) * std::abs(u); return; }
      if (e.fam == Fam::reacting) { double f = 1 / (1 + val(x)); auto k = 0.0; for (int d = 0; d < R; ++d) k += 0.5 * base[1 + d] * base[1 + d] / base[0]; (void)k; (void)f; }
      double rho0 = base[0], rho = rho0 * (1 + val(x)), k0 = 0, k1 = 0, ui[3] = {}; for (int d = 0; d < R; ++d) { ui[d] = d == dir ? u : base[1 + d] / rho0; k0 += 0.5 * rho0 * (base[1 + d] / rho0) * (base[1 + d] / rho0); k1 += 0.5 * rho * ui[d] * ui[d]; }
      double ein = base[e.idx("Energy")] - k0; Vec cons(std::size_t(e.ncons)); for (int k = 0; k < e.ncons; ++k) cons[k] = base[k] * rho / rho0; cons[0] = rho; for (int d = 0; d < R; ++d) cons[1 + d] = rho * ui[d]; cons[e.idx("Energy")] = ein + k1; e.complete(cons.data(), q);
    };
    if (e.fam == Fam::reacting) { c.sig("reacting"); return; } // the entropy wave of a temperature-dependent gas has no closed internal energy
    Idx lo{}, hi{}; for (int d = 0; d < 3; ++d) hi[d] = 1; hi[dir] = n; Field q(R, e.ncomp, lo, hi, 3, 3, 0); double dx = L / n; Vec a(std::size_t(e.ncomp)), b(a);
    q.each([&](Idx i) { fill((double(i[dir]) + 0.5) * dx, a.data()); q.set(i, a.data()); });
    double tend = (burgers ? 0.3 / (2 * 3.14159 * std::abs(u) * amp) : 0.35 * L / std::max(std::abs(V), 1e-2)), t = 0; if (e.fam == Fam::advection && std::abs(V) < 1e-2) { c.sig("no motion"); return; } long steps = 0; bool third = m->width == 3;
    while (t < tend * (1 - 1e-12) && steps < 4000) { periodic(q); int w = m->width; Field gr = grown(q, dir, w); Idx fhi = q.hi; fhi[dir] += 1; Field f(R, e.ncons, q.lo, fhi, 1, 1, 0); double dt = std::min((third ? 0.1 : 0.4) * m->dts(p, gr, dx, dir), tend - t); m->fluxes(p, f, gr, dt, dx, dir); Field qc = q; qc.ncomp = e.ncons; Field out = qc; update(Pol::seq, out, qc, f, dt, dx, dir); for (int k = 0; k < e.ncons; ++k) out.each([&](Idx i) { q.at(k, i) = out.at(k, i); }); e.complete_view(Pol::seq, q, out); t += dt; ++steps; }
    double s = 0, ref = 0; q.each([&](Idx i) { double x = (double(i[dir]) + 0.5) * dx, v; int comp = 0;
      if (burgers) { double y = u * (1 + val(x)); for (int it = 0; it < 200; ++it) y = y - (y - u * (1 + val(x - y * t))) * 0.5; v = y; } else { fill(x - V * t, b.data()); comp = shallow ? e.idx("Momentum", 1 - dir) : 0; v = b[comp]; }
      s += std::abs(q.at(comp, i) - v) * dx; fill(x, b.data()); ref += std::abs(b[comp] - base[comp] * (e.fam == Fam::advection || burgers ? 0 : 1)) * dx; });
    if (shallow) { ref = 0; q.each([&](Idx i) { fill((double(i[dir]) + .5) * dx, b.data()); ref += std::abs(b[e.idx("Momentum", 1 - dir)]) * dx; }); } else { ref = 0; q.each([&](Idx i) { fill((double(i[dir]) + .5) * dx, b.data()); ref += amp * std::abs(burgers ? u : base[0]) * dx * 0.6; }); if (e.fam == Fam::advection) ref = amp * 0.6; }
    err[g] = s / ref; how = vm::fmt(" dir %d amplitude %g steps %ld %s", dir, amp, steps, name(p));
  }
  c.describe(fac.name + how); double rate = std::log(err[0] / err[1]) / std::log(4.0); c.check(rate > 1.35 || err[1] < 2e-4, "rate", fac.name + how + vm::str(" errors ", err[0], " ", err[1], " order ", rate)); c.event("runs"); c.event("method_" + fac.name); c.sig(c.description);
  if (c.verbose) std::printf("RATE %s errors %g %g order %g\n", c.description.c_str(), err[0], err[1], rate);
}
