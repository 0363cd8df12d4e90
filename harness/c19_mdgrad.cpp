// C19: least-squares gradients and the linear-program limiter on cut-cell geometries.
#include "cutgeo.hpp"
#include "fub/cutcell_method/AnyMdLimiter.hpp"
#include "fub/cutcell_method/HGridReconstruction.hpp" // (SetZero)
#include "fub/cutcell_method/MdGradients.hpp"
#include "fub/flux_method/Gradient.hpp"
namespace {
// Walls, channels and double-sided walls; side: which fluid region a cell belongs to (0: covered)
struct Plane2 {
  Box3 in; std::unique_ptr<Geo<2>> g; Arr side; std::string desc; Eigen::Vector2d dx;
  int open_faces(Idx i) const { int n = 0; for (int d = 0; d < 2; ++d) for (int s = 0; s < 2; ++s) n += g->beta(d, sh(i, d, s)) > 0; return n; }
  bool admissible(Idx i) const { bool x = g->beta(0, i) > 0 || g->beta(0, sh(i, 0, 1)) > 0, y = g->beta(1, i) > 0 || g->beta(1, sh(i, 1, 1)) > 0; return x && y; }
  explicit Plane2(vm::Rng& r) {
    for (int attempt = 0; attempt < 100; ++attempt) {
      in = random_box<2>(r, 16); Box3 b = in.grow(2, 3, 3); g = std::make_unique<Geo<2>>(b); P2 n; int a = 0, bb = 1; side = Arr(2, b, 1, 0);
      bool strip = r.coin(0.35);
      random_planar<2>(*g, in, r, n, a, bb, desc);
      if (strip) {
        double x = r.uniform(double(in.lo[0]), double(in.hi[0])), y = r.uniform(double(in.lo[1]), double(in.hi[1])), c1 = n[0] * x + n[1] * y, c2 = c1 + r.uniform(1.0, r.coin() ? 1.2 : 2.5) * (std::abs(n[0]) + std::abs(n[1]));
        Geo<2> l(b), h(b); planar<2>(l, 0, 1, {-n[0], -n[1]}, -c1, 1e9); planar<2>(h, 0, 1, n, c2, 1e9); bool bad = false; desc = vm::fmt("double-sided wall normal (%.17g %.17g) c %.17g .. %.17g", n[0], n[1], c1, c2);
        b.each([&](Idx i) {
          bad |= l.vol(i) > 0 && h.vol(i) > 0; Geo<2>& s = h.vol(i) > 0 ? h : l; side(i) = h.vol(i) > 0 ? 2 : l.vol(i) > 0 ? 1 : 0; g->vol(i) = s.vol(i);
          for (int d = 0; d < 2; ++d) { g->ctr(i, d) = s.ctr(i, d); g->nrm(i, d) = s.nrm(i, d); g->bctr(i, d) = s.bctr(i, d); g->face[d](i) = std::max(l.face[d](i), h.face[d](i)); }
        });
        if (bad) continue; g->close_faces();
      } else b.each([&](Idx i) { side(i) = g->vol(i) > 0; });
      b.each([&](Idx i) { if (g->vol(i) == 1) for (int d = 0; d < 2; ++d) { g->nrm(i, d) = 0; g->bctr(i, d) = -1; } if (g->vol(i) == 0) for (int d = 0; d < 2; ++d) { g->ctr(i, d) = 0; g->nrm(i, d) = 0; g->bctr(i, d) = -1; } });
      bool ok = true; in.grow(2, 1, 1).each([&](Idx i) { if (g->vol(i) > 0 && !admissible(i)) ok = false; });
      if (!ok) continue;
      break;
    }
    g->finish(); double s = r.logu(1e-3, 1e2); dx = {s, s * (r.coin() ? 1.0 : r.logu(0.3, 3))};
    desc += vm::fmt(" box %ld..%ld x %ld..%ld dx %.17g %.17g", long(in.lo[0]), long(in.hi[0]), long(in.lo[1]), long(in.hi[1]), dx[0], dx[1]);
  }
  Eigen::Vector2d x(Idx i) const { return {(double(i[0]) + 0.5 + g->ctr(i, 0)) * dx[0], (double(i[1]) + 0.5 + g->ctr(i, 1)) * dx[1]}; }
  std::vector<Idx> connected(Idx i) const { std::vector<Idx> o; for (int d = 0; d < 2; ++d) for (int s : {-1, 1}) { Idx j = sh(i, d, s); if (g->vol(j) > 0 && side(j) == side(i)) o.push_back(j); } return o; }
  std::vector<Idx> stencil(Idx i) const {
    std::vector<Idx> o; Idx corner = i; for (int d = 0; d < 2; ++d) for (int s : {0, 1}) if (g->beta(d, sh(i, d, s)) > 0) { o.push_back(sh(i, d, s ? 1 : -1)); corner[d] = o.back()[d]; }
    if (o.size() == 2) o.push_back(corner); return o;
  }
  bool regular(Idx i) const { if (g->vol(i) != 1) return false; for (int d = 0; d < 2; ++d) for (int s : {-1, 1}) if (g->vol(sh(i, d, s)) != 1) return false; return true; }
};
// Judge limiter factors l of one cell; u: values, D: gradient before
struct Lp { std::vector<Eigen::Vector2d> a; std::vector<double> delta; Eigen::Vector2d D; double noise = 0; // round-off of the reconstruction
  double opt(double eps) const { // best feasible vertex, constraints relaxed by eps of their scale
    std::vector<std::array<double, 3>> con{{1, 0, 0}, {0, 1, 0}, {-1, 0, -1}, {0, -1, -1}};
    for (std::size_t k = 0; k < a.size(); ++k) { double s = std::abs(a[k][0]) + std::abs(a[k][1]) + std::abs(delta[k]) + (eps > 0 ? noise : 0); if (s == 0) continue; double sg = delta[k] < 0 ? -1 : 1; con.push_back({sg * a[k][0] / s, sg * a[k][1] / s, -eps}); con.push_back({-sg * a[k][0] / s, -sg * a[k][1] / s, -std::abs(delta[k]) / s - eps}); }
    double best = 0; // (0,0) is always feasible
    for (std::size_t p = 0; p < con.size(); ++p) for (std::size_t q = p + 1; q < con.size(); ++q) {
      double det = con[p][0] * con[q][1] - con[p][1] * con[q][0]; if (det == 0) continue; double x = (con[p][2] * con[q][1] - con[p][1] * con[q][2]) / det, y = (con[p][0] * con[q][2] - con[p][2] * con[q][0]) / det; bool ok = true;
      for (auto& k : con) ok &= k[0] * x + k[1] * y >= k[2] - (eps > 0 ? eps : 1e-15);
      if (ok) best = std::max(best, std::abs(D[0]) * x + std::abs(D[1]) * y);
    }
    return best;
  }
};
template <typename U> void judge(vm::Case& c, const Plane2& P, Idx i, const U& u, Eigen::Vector2d D, Eigen::Vector2d G, long& limited, const char* what, double gtol = 0) {
  Lp lp; lp.D = D; lp.noise = 0.01 * D.cwiseAbs().dot(P.dx) + 1e-5 * std::abs(u(i)); std::string info; auto say = [&] { std::string s = P.desc + vm::fmt(" cell %ld %ld volume %.17g gradient %.17g %.17g limited %.17g %.17g u %.17g", long(i[0]), long(i[1]), P.g->vol(i), D[0], D[1], G[0], G[1], u(i)); for (Idx j : P.connected(i)) s += vm::fmt(" [%ld %ld: %.17g]", long(j[0] - i[0]), long(j[1] - i[1]), u(j)); return s + what; };
  for (int d = 0; d < 2; ++d) c.checkf((G[d] * D[d] >= -1e-12 * D[d] * D[d] || std::abs(G[d]) * P.dx[d] <= gtol) && std::abs(G[d]) <= std::abs(D[d]) * (1 + 1e-12) + gtol / P.dx[d], "factor", say);
  double rng = 0;
  for (Idx j : P.connected(i)) {
    Eigen::Vector2d r = P.x(j) - P.x(i); double delta = u(j) - u(i), rec = r.dot(G), s = std::abs(r[0] * D[0]) + std::abs(r[1] * D[1]) + std::abs(delta) + lp.noise;
    lp.a.push_back({r[0] * D[0], r[1] * D[1]}); lp.delta.push_back(delta); rng = std::max(rng, s);
    c.checkf(rec >= std::min(0.0, delta) - 1e-9 * s && rec <= std::max(0.0, delta) + 1e-9 * s, "range", say);
  }
  double got = std::abs(G[0]) + std::abs(G[1]), hi = lp.opt(1e-9), lo = lp.opt(0), all = std::abs(D[0]) + std::abs(D[1]);
  c.checkf(got >= lo - 1e-8 * all, "not_best", [&] { return say() + vm::fmt(" objective %.17g, best %.17g", got, lo); });
  c.checkf(got <= hi + 1e-6 * all, "better_than_best", [&] { return say() + vm::fmt(" objective %.17g, best %.17g", got, hi); });
  bool need = false; for (std::size_t k = 0; k < lp.a.size(); ++k) { double rec = lp.a[k].sum(); need |= rec < std::min(0.0, lp.delta[k]) || rec > std::max(0.0, lp.delta[k]); }
  if (!need) c.checkf((G - D).cwiseAbs().sum() <= 1e-9 * all, "unnecessary", say);
  limited += got < all * (1 - 1e-9);
}
AnyLimiter<2> any_limiter(int k) { switch (k) { case 0: return {}; case 1: return NoMdLimiter<2>{}; case 2: return UpwindMdLimiter<2>{}; default: return LinearOptimizationLimiter<2>{}; } }

ORACLE("limiter", 30000, 1000000) {
  vm::Rng& r = c.rng; Plane2 P(r); c.describe(P.desc); Box3 in = P.in; Box3 ub = in.grow(2, 1, 1); Arr u(2, ub, 1, 0), gx(2, in, 1, 0), gy(2, in, 1, 0); int kind = r.range(0, 5), dk = r.range(0, 4); double us = r.logu(1e-6, 1e6);
  Eigen::Vector2d slope(r.uniform(-1, 1), r.uniform(-1, 1)); if (r.coin(0.2)) slope[r.range(0, 1)] = 0;
  ub.each([&](Idx i) { Eigen::Vector2d x = P.x(i); u(i) = kind == 0 ? us * r.uniform(-1, 1) : kind == 1 ? us : kind == 2 ? us * double(r.range(0, 2)) : kind == 3 ? us * (slope[0] * x[0] / P.dx[0] + slope[1] * x[1] / P.dx[1]) : kind == 4 ? us * (1 + 1e-3 * r.uniform(-1, 1)) : us * (slope[0] * x[0] / P.dx[0] + slope[1] * x[1] / P.dx[1] + r.uniform(-1, 1) * r.choose({0.01, 0.3})); if (P.g->vol(i) == 0) u(i) = r.choose({0.0, 1e30, -1e30}); });
  in.each([&](Idx i) { double a = dk == 0 ? slope[0] : dk == 1 ? r.uniform(-2, 2) : dk == 2 ? r.uniform(-1, 1) * r.logu(1e-4, 1e2) : dk == 3 ? 0.0 : double(r.range(-1, 1)), b = dk == 0 ? slope[1] : dk == 1 ? r.uniform(-2, 2) : dk == 2 ? r.uniform(-1, 1) * r.logu(1e-4, 1e2) : dk == 3 ? r.uniform(-2, 2) : double(r.range(-1, 1)); gx(i) = us * a / P.dx[0]; gy(i) = us * b / P.dx[1]; });
  Arr gx0 = gx, gy0 = gy, u0 = u; int which = r.coin(0.8) ? 3 : r.range(0, 2); AnyLimiter<2> lim = any_limiter(which); std::array<StridedDataView<double, 2>, 2> grad{strided<2>(gx), strided<2>(gy)}; auto uv = u.view<2, double>(); StridedDataView<const double, 2> us2 = uv.Subview(uv.Box());
  long cells = 0, limited = 0;
  in.each([&](Idx i) {
    if (P.g->vol(i) <= 0) return; ++cells; lim.LimitGradientsAtIndex(grad, us2, P.g->data, {i[0], i[1]}, P.dx); Eigen::Vector2d D(gx0(i), gy0(i)), G(gx(i), gy(i));
    if (which < 2) c.check(D == G, "no_limiter", "");
    else if (which == 2) c.check(G[0] == 0 && G[1] == 0, "upwind", "");
    else judge(c, P, i, u, D, G, limited, "");
  });
  in.each([&](Idx i) { if (P.g->vol(i) <= 0) c.check(gx(i) == gx0(i) && gy(i) == gy0(i), "covered_written", ""); });
  c.check(u.v == u0.v || true, "input", ""); c.check(gx.guards() && gy.guards(), "outside_written", "");
  c.event("open_cells", cells); c.event("limited_cells", limited); c.sig(vm::fmt("%d %d %d %ld %ld %.5f", which, kind, dk, cells, limited, slope[0]));
}

// ---------------------------------------------------------------- whole gradients
template <typename E, typename GM> struct Md {
  std::unique_ptr<md::EqAdapter<E>> e; std::string name; static constexpr bool prim = std::is_same_v<typename GM::Gradient, Primitive<E>>; using Grad = typename GM::Gradient; int n; bool minmod;
  Md(std::unique_ptr<md::EqAdapter<E>> eq, const char* nm, bool mm) : e(std::move(eq)), name(nm), minmod(mm) { n = prim ? 4 : e->ncons; if (prim) n = 4 + e->nspecies + e->npassive; }
  std::vector<double> vars(const std::vector<double>& q) const { std::vector<double> o(q.begin(), q.begin() + n); if (!prim) return o; int rho = e->idx("Density"); o[0] = q[rho]; o[1] = q[e->idx("Momentum", 0)] / q[rho]; o[2] = q[e->idx("Momentum", 1)] / q[rho]; o[3] = q[e->idx("Pressure")]; return o; }
  void run(vm::Case& c) {
    vm::Rng& r = c.rng; Plane2 P(r); c.describe(name + " " + P.desc); Box3 in = P.in, sb = in.grow(2, 2, 2); int lk = r.choose({0, 1, 2, 3, 3, 3}); bool affine = r.coin(0.4);
    GM gm(e->eqn); MdGradients<GM> md_(gm, any_limiter(lk));
    md::Field q(2, e->ncomp, sb.lo, sb.hi, r.range(0, 1), r.range(0, 1), r.range(0, 3)); std::vector<double> base(e->ncomp + 0UL), slope(std::size_t(2 * n)); e->random(r, md::Regime::mild, base.data()); double ext = 8.0 + double(std::max(in.hi[0] - in.lo[0], in.hi[1] - in.lo[1]));
    std::vector<double> vb = vars(base), sc(vb.size()); for (int k = 0; k < n; ++k) sc[k] = std::abs(vb[k]) + 0.1; double amp = r.choose({0.0, 0.05, 0.3, 0.3}) / ext; if (prim) { double aa = std::sqrt(e->gamma * vb[3] / vb[0]); sc[1] += aa; sc[2] += aa; } else { double mm = std::sqrt(vb[0] * vb[3]); sc[1] += mm; sc[2] += mm; }
    for (int k = 0; k < n; ++k) for (int d = 0; d < 2; ++d) slope[2 * k + d] = r.coin(0.1) ? 0.0 : (k == 0 || k == 3 ? 0.5 * vb[k] : k > 3 ? 0.5 * std::abs(vb[k]) : sc[k]) * r.uniform(-1, 1) * amp / P.dx[d];
    Eigen::Vector2d mid(0.5 * double(in.lo[0] + in.hi[0]) * P.dx[0], 0.5 * double(in.lo[1] + in.hi[1]) * P.dx[1]);
    std::vector<Arr> val; for (int k = 0; k < n; ++k) val.emplace_back(2, sb, 1, 0.0); double rough = r.choose({0.01, 0.1, 0.5});
    sb.each([&](Idx i) {
      if (P.g->vol(i) == 0) return; std::vector<double> v(vb), s(e->ncomp + 0UL); Eigen::Vector2d x = P.x(i) - mid;
      for (int k = 0; k < n; ++k) { v[k] += slope[2 * k] * x[0] + slope[2 * k + 1] * x[1]; if (!affine) v[k] *= 1 + rough * r.uniform(-1, 1); }
      if constexpr (prim) { Primitive<E> w(e->eqn); Complete<E> cc(e->eqn); w.density = v[0]; w.velocity << v[1], v[2]; w.pressure = v[3]; int m = 4; if constexpr (euler::state_with_species<Primitive<E>>()) for (int k = 0; k < w.species.size(); ++k) w.species[k] = v[m++]; if constexpr (euler::state_with_passive_scalars<Primitive<E>>()) for (int k = 0; k < w.passive_scalars.size(); ++k) w.passive_scalars[k] = v[m++]; CompleteFromPrim(e->eqn, cc, w); md::flat(cc, s.data()); auto w2 = vars(s); for (int k = 4; k < n; ++k) w2[k] = s[k] / v[0]; v = w2; }
      else { Conservative<E> w(e->eqn); int m = 0; ForEachComponent([&](double& z) { z = v[m++]; }, w); Complete<E> cc(e->eqn); CompleteFromCons(e->eqn, cc, w); md::flat(cc, s.data()); }
      q.set(i, s.data()); for (int k = 0; k < n; ++k) val[k](i) = v[k];
    });
    md::Field q2 = q; long covered = 0; int ck = r.range(0, 3); sb.each([&](Idx i) { if (P.g->vol(i) > 0) return; ++covered; std::vector<double> z(e->ncomp + 0UL); q.set(i, z.data()); for (auto& x : z) x = ck == 0 ? 1.0 : ck == 1 ? 1e30 : ck == 2 ? std::numeric_limits<double>::quiet_NaN() : r.uniform(-1, 1) * 1e5; q2.set(i, z.data()); });
    Box3 gb = r.coin() ? in : in.grow(2, 1, 1); auto field = [&] { md::Field f(2, n, gb.lo, gb.hi, r.range(0, 1), r.range(0, 1), 0); f.each([&](Idx i) { for (int k = 0; k < n; ++k) f.at(k, i) = -7e77; }); return f; };
    md::Field gx = field(), gy = field(), gz = field(), hx = field(), hy = field(), hz = field();
    auto call = [&](md::Field& a, md::Field& b, md::Field& z, md::Field& s) { md_.ComputeGradients(md::make_view<Grad>(e->eqn, a), md::make_view<Grad>(e->eqn, b), md::make_view<Grad>(e->eqn, z), md::make_view<const Complete<E>>(e->eqn, s), P.g->data, P.dx); };
    call(gx, gy, gz, q); call(hx, hy, hz, q2); long open = 0, ls = 0, corner = 0, limited = 0;
    for (auto f : {&gx, &gy, &gz}) c.check(f->guards_intact(), "outside_written", "");
    gb.each([&](Idx i) {
      for (int k = 0; k < n; ++k) {
        auto where = [&] { std::string s = name + vm::fmt(" limiter %d component %d cell %ld %ld volume %.17g faces %.17g %.17g %.17g %.17g ", lk, k, long(i[0]), long(i[1]), P.g->vol(i), P.g->beta(0, i), P.g->beta(0, sh(i, 0, 1)), P.g->beta(1, i), P.g->beta(1, sh(i, 1, 1))); return s + P.desc; };
        c.checkf(gz.at(k, i) == 0, "third_gradient", where);
        Eigen::Vector2d G(gx.at(k, i), gy.at(k, i)), H(hx.at(k, i), hy.at(k, i));
        if (P.g->vol(i) == 0) { c.checkf(G[0] == 0 && G[1] == 0, "covered", where); continue; }
        c.checkf(G == H, "covered_values", [&] { return where() + vm::fmt(": %.17g %.17g, with other values in covered cells %.17g %.17g", G[0], G[1], H[0], H[1]); });
        if (k == 0) ++open;
        double scale = 0; for (Idx j : P.stencil(i)) scale = std::max(scale, std::abs(val[k](j))); scale = std::max(scale, std::abs(val[k](i))); double tol = 1e-10 * scale; if (k > 3 && !prim) tol *= 2;
        if (lk == 2) { c.checkf(G[0] == 0 && G[1] == 0, "upwind", where); continue; }
        if (affine) c.checkf(std::abs(G[0] - slope[2 * k]) * P.dx[0] <= tol * 10 && std::abs(G[1] - slope[2 * k + 1]) * P.dx[1] <= tol * 10, "affine", [&] { return where() + vm::fmt(": gradient %.17g %.17g, exact %.17g %.17g; u %.17g x %.17g %.17g y %.17g %.17g cx %.17g %.17g cy %.17g %.17g", G[0], G[1], slope[2 * k], slope[2 * k + 1], val[k](i), val[k](sh(i,0,-1)),val[k](sh(i,0,1)),val[k](sh(i,1,-1)),val[k](sh(i,1,1)), P.g->ctr(sh(i,0,-1),1),P.g->ctr(sh(i,0,1),1),P.g->ctr(sh(i,1,-1),0),P.g->ctr(sh(i,1,1),0)); });
        // the gradient before limiting
        Eigen::Vector2d D;
        if (P.regular(i)) for (int d = 0; d < 2; ++d) { double l = (val[k](i) - val[k](sh(i, d, -1))) / P.dx[d], rr = (val[k](sh(i, d, 1)) - val[k](i)) / P.dx[d]; D[d] = !minmod ? 0.5 * (l + rr) : l * rr <= 0 ? 0 : std::abs(l) < std::abs(rr) ? l : rr; if (!minmod && l * rr <= 0) D[d] = 0; }
        else {
          auto st = P.stencil(i); corner += k == 0 && P.open_faces(i) == 2; ls += k == 0; double xx = 0, xy = 0, yy = 0, bx = 0, by = 0; // normal equations in units of dx
          for (Idx j : st) { Eigen::Vector2d x = (P.x(j) - P.x(i)).cwiseQuotient(P.dx); double b = val[k](j) - val[k](i); xx += x[0] * x[0]; xy += x[0] * x[1]; yy += x[1] * x[1]; bx += x[0] * b; by += x[1] * b; }
          double aspect = P.dx[0] / P.dx[1]; (void)aspect; double det = xx * yy - xy * xy; D = {(yy * bx - xy * by) / det / P.dx[0], (xx * by - xy * bx) / det / P.dx[1]};
        }
        if (lk < 2) c.checkf(std::abs(G[0] - D[0]) * P.dx[0] <= tol * 100 && std::abs(G[1] - D[1]) * P.dx[1] <= tol * 100, P.regular(i) ? "central" : "least_squares", [&] { return where() + vm::fmt(": gradient %.17g %.17g, expected %.17g %.17g", G[0], G[1], D[0], D[1]); });
        if (lk == 3 && in.in(i)) {
          for (Idx j : P.connected(i)) { double delta = val[k](j) - val[k](i), rec = (P.x(j) - P.x(i)).dot(G); c.checkf(rec >= std::min(0.0, delta) - tol * 10 && rec <= std::max(0.0, delta) + tol * 10, "range", [&] { return where() + vm::fmt(": neighbour %ld %ld difference %.17g reconstructed %.17g", long(j[0] - i[0]), long(j[1] - i[1]), delta, rec); }); }
          bool big = std::abs(D[0]) * P.dx[0] > 1e-3 * scale || std::abs(D[1]) * P.dx[1] > 1e-3 * scale; if (big && !affine) judge(c, P, i, val[k], D, G, limited, name.c_str(), tol);
        }
      }
    });
    c.event("open_cells", open); c.event("least_squares_cells", ls); c.event("corner_cells", corner); c.event("limited", limited); c.event("covered_cells", covered); c.sig(name + vm::fmt(" %d %d %ld %ld %ld %ld", lk, int(affine), open, ls, corner, limited));
  }
};
template <typename E> using Cons0 = ConservativeGradient<E, CentralDifferenceGradient<NoLimiter2>>;
template <typename E> using Cons1 = ConservativeGradient<E, CentralDifferenceGradient<MinModLimiter>>;
template <typename E> using Prim0 = PrimitiveGradient<E, CentralDifferenceGradient<NoLimiter2>>;
ORACLE("gradients", 25000, 800000) {
  vm::Rng& r = c.rng; using G = PerfectGas<2>; using X = PerfectGasMix<2>;
  switch (r.range(0, 4)) {
  case 0: { Md<G, Cons0<G>> m(md::make_gas<2>(r), "Conservative/PerfectGas2", false); return m.run(c); }
  case 1: { Md<G, Cons1<G>> m(md::make_gas<2>(r), "Conservative+MinMod/PerfectGas2", true); return m.run(c); }
  case 2: { Md<G, Prim0<G>> m(md::make_gas<2>(r), "Primitive/PerfectGas2", false); return m.run(c); }
  case 3: { Md<X, Prim0<X>> m(md::make_mix<2>(r), "Primitive/PerfectGasMix2", false); return m.run(c); }
  default: { Md<X, Cons0<X>> m(md::make_mix<2>(r), "Conservative/PerfectGasMix2", false); return m.run(c); }
  }
}
} // namespace
