// C18: cut-cell fluxes on planar cuts, channels and random admissible fractions.
#include "cutgeo.hpp"
namespace {

// ---------------------------------------------------------------- fractions
template <int R> void fractions(vm::Case& c) {
  vm::Rng& r = c.rng; Box3 in = random_box<R>(r, 40); Geo<R> g(in.grow(R, 2, 2)); bool rnd = r.coin(0.5); std::string desc = "random fractions"; P2 n{}; int a, b;
  if (rnd) scatter<R>(g, r); else random_planar<R>(g, in, r, n, a, b, desc);
  g.finish(); c.describe(vm::fmt("rank %d box %ld %ld %ld ", R, long(in.hi[0] - in.lo[0]), long(in.hi[1] - in.lo[1]), long(in.hi[2] - in.lo[2])) + desc); long open = 0, shl = 0, dbl = 0;
  for (int d = 0; d < R; ++d) {
    g.fbox.each([&](Idx f) {
      double m = g.beta(d, f), l = g.beta(d, sh(f, d, -1)), rr = g.beta(d, sh(f, d, 1)), dl = std::max(0.0, m - l), dr = std::max(0.0, m - rr), ds = std::min(dl, dr);
      double w[4] = {std::max(0.0, m - std::max(dl, dr)), dl - ds, dr - ds, ds}, got[4] = {g.us[d](f), g.sl[d](f), g.sr[d](f), g.ds[d](f)}, rel[4] = {g.usr[d](f), g.slr[d](f), g.srr[d](f), g.dsr[d](f)};
      static const char* nm[4] = {"unshielded", "shielded_left", "shielded_right", "doubly_shielded"}; double s = 0, srel = 0;
      for (int k = 0; k < 4; ++k) {
        c.checkf(std::abs(got[k] - w[k]) <= 4e-16, nm[k], [&] { return vm::fmt("dir %d beta %.17g | %.17g | %.17g: %.17g, expected %.17g", d, l, m, rr, got[k], w[k]); });
        c.checkf(got[k] >= 0 && rel[k] >= 0, "negative", [&] { return vm::fmt("dir %d %s beta %.17g | %.17g | %.17g: %.17g rel %.17g", d, nm[k], l, m, rr, got[k], rel[k]); });
        c.checkf(std::abs(rel[k] * m - got[k]) <= 4e-16, "relative", [&] { return vm::fmt("dir %d %s beta %.17g | %.17g | %.17g: %.17g rel %.17g", d, nm[k], l, m, rr, got[k], rel[k]); });
        s += got[k]; srel += rel[k];
      }
      c.checkf(std::abs(s - m) <= 1e-15, "parts", [&] { return vm::fmt("dir %d beta %.17g | %.17g | %.17g: sum of the parts %.17g", d, l, m, rr, s); });
      c.checkf(m == 0 ? srel == 0 : std::abs(srel - 1) <= 1e-15 / m + 1e-15, "parts_rel", [&] { return vm::fmt("dir %d beta %.17g | %.17g | %.17g: sum of the relative parts %.17g", d, l, m, rr, srel); });
      open += m > 0; shl += dl > 0 || dr > 0; dbl += ds > 0;
    });
    for (auto p : {&g.us, &g.sl, &g.sr, &g.ds, &g.usr, &g.slr, &g.srr, &g.dsr}) c.check((*p)[d].guards(), "outside_written", vm::fmt("dir %d", d));
  }
  c.event("open_faces", open); c.event("shielded_faces", shl); c.event("doubly_shielded_faces", dbl);
  g.box.each([&](Idx i) {
    if (!g.fbox.in(i)) return; Index<R> id{}; for (int d = 0; d < R; ++d) id[d] = i[d];
    bool got = IsCutCell(g.data, id); c.checkf(got == g.cut(i), "cut_cell", [&] { return vm::fmt("volume %.17g", g.vol(i)); });
  });
  c.sig(vm::fmt("%d %d %ld %ld %ld %.6f", R, int(rnd), open, shl, dbl, n[0]));
}
ORACLE("fractions_2d", 1500, 40000) { fractions<2>(c); }
ORACLE("fractions_3d", 500, 15000) { fractions<3>(c); }

// ---------------------------------------------------------------- components
template <int R> void components(vm::Case& c) {
  vm::Rng& r = c.rng; Box3 in = random_box<R>(r, 40); Geo<R> g(in.grow(R, 2, 3)); bool rnd = r.coin(0.6); std::string desc; P2 n{}; int a, b, dir = r.range(0, R - 1);
  if (rnd) scatter<R>(g, r); else random_planar<R>(g, in, r, n, a, b, desc);
  g.finish(); Box3 fb = in; fb.hi[dir] += 1; Box3 cb = in.grow(R, 1, 1);
  auto field = [&](Box3 bx, int pl, int ph) { md::Field f(R, 1, bx.lo, bx.hi, pl, ph, 0); f.each([&](Idx i) { f.at(0, i) = r.coin(0.1) ? 0.0 : r.uniform(-1, 1) * r.logu(1e-3, 1e3); }); return f; };
  md::Field st = field(fb, r.range(0, 2), r.range(0, 2)), fl = field(fb, 1, r.range(0, 2)), fr = field(fb, 0, 1), reg = field(fb, r.range(0, 2), 1), bd = field(cb, r.range(0, 2), r.range(0, 2));
  auto view = [&](md::Field& f) {
    std::array<std::ptrdiff_t, R> e{}, s{}, o{}; for (int d = 0; d < R; ++d) { e[d] = f.hi[d] - f.lo[d]; s[d] = f.stride(d); o[d] = f.lo[d]; }
    layout_stride::mapping<dynamic_extents<R>> m{dynamic_extents<R>(e), s}; return PatchDataView<double, R, layout_stride>(mdspan<double, R, layout_stride>(f.ptr(0), m), o);
  };
  bool my = r.coin(0.35); md::Field fl0 = fl, fr0 = fr, reg0 = reg, bd0 = bd; double dt = r.logu(1e-6, 1), dx = r.logu(1e-3, 1);
  c.describe(vm::fmt("rank %d dir %d %s faces %ld %ld %ld ", R, dir, my ? "given" : "stabilised", long(fb.hi[0] - fb.lo[0]), long(fb.hi[1] - fb.lo[1]), long(fb.hi[2] - fb.lo[2])) + desc);
  if (my) MyStab_ComputeStableFluxComponents(view(st), view(fl), view(fr), view(reg), view(bd), g.data, Duration(dt), dx, Direction(dir));
  else ComputeStableFluxComponents(view(st), view(fl), view(fr), view(reg), view(bd), g.data, Duration(dt), dx, Direction(dir));
  long shielded = 0;
  st.each([&](Idx f) {
    double F = reg0.at(0, f), bl = bd0.at(0, sh(f, dir, -1)), br = bd0.at(0, f), dl = 0.5 - g.bctr(sh(f, dir, -1), dir), dr = 0.5 + g.bctr(f, dir);
    dl = std::max(0.0, std::min(1.0, dl)); dr = std::max(0.0, std::min(1.0, dr));
    double sL = my ? fl0.at(0, f) : dl * F + (1 - dl) * bl, sR = my ? fr0.at(0, f) : dr * F + (1 - dr) * br, mag = std::abs(F) + std::abs(bl) + std::abs(br) + std::abs(sL) + std::abs(sR);
    double want = g.usr[dir](f) * F + g.slr[dir](f) * sL + g.srr[dir](f) * sR; shielded += g.slr[dir](f) > 0 || g.srr[dir](f) > 0;
    c.checkf(std::abs(fl.at(0, f) - sL) <= 1e-15 * mag * 4, "shielded_left", [&] { return vm::fmt("dir %d flux %.17g wall %.17g distance %.17g: %.17g, expected %.17g", dir, F, bl, dl, fl.at(0, f), sL); });
    c.checkf(std::abs(fr.at(0, f) - sR) <= 1e-15 * mag * 4, "shielded_right", [&] { return vm::fmt("dir %d flux %.17g wall %.17g distance %.17g: %.17g, expected %.17g", dir, F, br, dr, fr.at(0, f), sR); });
    c.checkf(std::abs(st.at(0, f) - want) <= 1e-15 * mag * 4, "combination", [&] { return vm::fmt("dir %d unshielded %.17g left %.17g right %.17g: %.17g, expected %.17g", dir, g.usr[dir](f), g.slr[dir](f), g.srr[dir](f), st.at(0, f), want); });
    if (g.beta(dir, f) == 1 && g.beta(dir, sh(f, dir, -1)) == 1 && g.beta(dir, sh(f, dir, 1)) == 1) c.checkf(st.at(0, f) == F, "regular", [&] { return vm::fmt("dir %d fully open face: %.17g, regular flux %.17g", dir, st.at(0, f), F); });
  });
  c.check(reg.buf.size() == reg0.buf.size() && !std::memcmp(reg.buf.data(), reg0.buf.data(), reg.buf.size() * 8) && !std::memcmp(bd.buf.data(), bd0.buf.data(), bd.buf.size() * 8), "input_changed", "");
  c.check(st.guards_intact() && fl.guards_intact() && fr.guards_intact(), "outside_written", "");
  c.event("shielded_faces", shielded); c.sig(vm::fmt("%d %d %d %d %ld %ld", R, dir, int(my), int(rnd), shielded, st.cells()));
}
ORACLE("components_2d", 2000, 60000) { components<2>(c); }
ORACLE("components_3d", 1000, 30000) { components<3>(c); }

// ---------------------------------------------------------------- KBN method
struct Kit { virtual ~Kit() = default; };
template <typename E, typename FM, typename RS, bool Exact> struct Kbn {
  static constexpr int R = E::Rank(); static constexpr int w = FM::GetStencilWidth();
  std::unique_ptr<md::EqAdapter<E>> e; std::unique_ptr<KbnCutCellMethod<FM, RS>> m; std::unique_ptr<FM> fm; std::string name; bool alone = false;
  Box3 in, cb; std::unique_ptr<Geo<R>> g; int dir = 0; double dt = 0, dx = 0; P2 n{}; int a = 0, b = 1; std::string desc; double gamma;
  Kbn(vm::Case& c, std::unique_ptr<md::EqAdapter<E>> eq, const char* nm, bool planar_cut) : e(std::move(eq)), name(nm) {
    vm::Rng& r = c.rng; fm = std::make_unique<FM>(e->eqn); m = std::make_unique<KbnCutCellMethod<FM, RS>>(*fm, RS(e->eqn)); e->novac = true; gamma = e->gamma;
    in = random_box<R>(r, r.coin(0.3) ? 20 : 9); dir = r.range(0, R - 1); cb = in.grow(R, w + 1, w + 1); g = std::make_unique<Geo<R>>(cb.grow(R, 1, 2));
    desc = "random fractions"; if (planar_cut) random_planar<R>(*g, in, r, n, a, b, desc); else scatter<R>(*g, r);
    g->finish(); dx = r.logu(1e-3, 1); dt = 1e-3 * dx;
    c.describe(name + vm::fmt(" rank %d dir %d box %ld %ld %ld ", R, dir, long(in.hi[0] - in.lo[0]), long(in.hi[1] - in.lo[1]), long(in.hi[2] - in.lo[2])) + desc);
  }
  Box3 faces() const { Box3 f = in; f.hi[dir] += 1; return f; }
  struct Out { md::Field ref, bnd, reg, st, sl, sr; double dt; };
  // whole sequence of calls of one direction
  Out run(vm::Case& c, md::Field& q, std::vector<int>& masks, md::Field* mirror, bool full = true) {
    Box3 fb = faces();
    Out o{md::Field(R, e->ncomp, cb.lo, cb.hi, 1, 0, 2), md::Field(R, e->ncons, cb.lo, cb.hi, 0, 1, 0), md::Field(R, e->ncons, fb.lo, fb.hi, 1, 1, 3), md::Field(R, e->ncons, fb.lo, fb.hi, 0, 2, 1), md::Field(R, e->ncons, fb.lo, fb.hi, 1, 0, 0), md::Field(R, e->ncons, fb.lo, fb.hi, 1, 1, 0), 0};
    o.ref.each([&](Idx i) { for (int k = 0; k < e->ncomp; ++k) o.ref.at(k, i) = -1e30; });
    for (auto f : {&o.bnd, &o.reg, &o.st, &o.sl, &o.sr}) f->each([&](Idx i) { for (int k = 0; k < e->ncons; ++k) f->at(k, i) = 1e30; });
    o.bnd.each([&](Idx i) { for (int k = 0; k < e->ncons; ++k) o.bnd.at(k, i) = 0; });
    auto qv = md::make_view<const Complete<E>>(e->eqn, q); auto rv = md::make_view<Complete<E>>(e->eqn, o.ref); auto rcv = md::make_view<const Complete<E>>(e->eqn, o.ref);
    m->PreAdvanceHierarchy(rv, qv, g->data);
    auto mv = md::make_view<const Complete<E>>(e->eqn, mirror ? *mirror : o.ref);
    std::array<std::ptrdiff_t, R> ex{}, st{}, og{}; std::ptrdiff_t s = 1; for (int d = 0; d < R; ++d) { ex[d] = cb.hi[d] - cb.lo[d]; st[d] = s; s *= ex[d]; og[d] = cb.lo[d]; }
    layout_stride::mapping<dynamic_extents<R>> map{dynamic_extents<R>(ex), st}; masks.resize(std::size_t(s)); StridedDataView<int, R> mk(mdspan<int, R, layout_stride>(masks.data(), map), og);
    auto bv = md::make_view<Conservative<E>>(e->eqn, o.bnd);
    m->ComputeBoundaryFluxes(bv, qv, rcv, mv, mk, g->data, Duration(dt), dx, Direction(dir));
    if (full) {
      m->ComputeRegularFluxes(md::make_view<Conservative<E>>(e->eqn, o.reg), qv, g->data, Duration(dt), dx, Direction(dir));
      auto sv = md::make_view<Conservative<E>>(e->eqn, o.st); auto lv = md::make_view<Conservative<E>>(e->eqn, o.sl); auto rrv = md::make_view<Conservative<E>>(e->eqn, o.sr);
      m->ComputeCutCellFluxes(sv, lv, rrv, sv, bv, md::make_view<const Conservative<E>>(e->eqn, o.reg), qv, g->data, Duration(dt), dx, Direction(dir));
      o.dt = m->ComputeStableDt(qv, g->data, dx, Direction(dir));
    }
    return o;
  }
  std::vector<double> comp(md::Field& q, Idx i) { std::vector<double> v(e->ncomp + 0UL); q.get(i, v.data()); return v; }
  // magnitude of the fluxes of a state
  std::vector<double> scale(const std::vector<double>& q) {
    std::vector<double> s(e->ncons + 0UL), f(e->ncons + 0UL); double rho = q[std::size_t(e->idx("Density"))], p = q[std::size_t(e->idx("Pressure"))], aa = std::sqrt(gamma * p / rho);
    for (int d = 0; d < R; ++d) { e->flux(q.data(), d, f.data()); for (std::size_t k = 0; k < f.size(); ++k) s[k] = std::max(s[k], std::abs(f[k])); }
    double um = 0; for (int d = 0; d < R; ++d) um += std::abs(q[std::size_t(e->idx("Momentum", d))]) / rho;
    for (std::size_t k = 0; k < f.size(); ++k) { bool mom = e->comps[k].var == "Momentum"; s[k] = std::max(s[k], mom ? p : 0.0) + (aa + um) * std::abs(q[k]) + (mom ? rho * aa * aa : 0.0); }
    return s;
  }
  void set_velocity(std::vector<double>& q, std::array<double, 3> u) {
    double rho = q[std::size_t(e->idx("Density"))], k0 = 0, k1 = 0; for (int d = 0; d < R; ++d) { double& mm = q[std::size_t(e->idx("Momentum", d))]; k0 += 0.5 * mm * mm / rho; mm = rho * u[d]; k1 += 0.5 * mm * mm / rho; }
    q[std::size_t(e->idx("Energy"))] += k1 - k0;
  }
  std::vector<double> state(vm::Rng& r) { std::vector<double> q(e->ncomp + 0UL); e->random(r, r.coin(0.5) ? md::Regime::mild : md::Regime::moderate, q.data());
    double rho = q[std::size_t(e->idx("Density"))], lim = 0.8 * 2 / (gamma - 1) * std::sqrt(gamma * q[std::size_t(e->idx("Pressure"))] / rho), un = 0; std::array<double, 3> u{}; for (int d = 0; d < R; ++d) { u[d] = q[std::size_t(e->idx("Momentum", d))] / rho; un += u[d] * u[d]; }
    un = std::sqrt(un); if (un > lim) { for (auto& x : u) x *= lim / un; set_velocity(q, u); } // no vacuum at the wall
    return q; }
  md::Field states(vm::Rng& r) { md::Field q(R, e->ncomp, cb.lo, cb.hi, r.range(0, 1), r.range(0, 1), r.range(0, 3)); q.each([&](Idx i) { auto s = state(r); q.set(i, s.data()); }); return q; }

  void uniform(vm::Case& c) { // a uniform flow along the wall
    vm::Rng& r = c.rng; auto q0 = state(r); double aa = std::sqrt(gamma * q0[std::size_t(e->idx("Pressure"))] / q0[std::size_t(e->idx("Density"))]), v = r.coin(0.1) ? 0.0 : aa * r.uniform(-2.5, 2.5); std::array<double, 3> u{};
    u[a] = -v * n[1]; u[b] = v * n[0]; if (R == 3) u[3 - a - b] = aa * r.uniform(-1.5, 1.5); set_velocity(q0, u);
    md::Field q(R, e->ncomp, cb.lo, cb.hi, 0, 0, 1); q.each([&](Idx i) { if (g->vol(i) > 0) q.set(i, q0.data()); else { std::vector<double> z(q0.size(), r.choose({0.0, 1.0})); q.set(i, z.data()); } });
    std::vector<int> masks(100000, 0); auto o = run(c, q, masks, nullptr); auto s = scale(q0); std::vector<double> f(e->ncons + 0UL); e->flux(q0.data(), dir, f.data()); long cut = 0, shielded = 0, open = 0; const double tol = 1e-9;
    o.ref.each([&](Idx i) {
      if (!g->cut(i)) return; ++cut;
      for (int k = 0; k < e->ncons; ++k) {
        c.checkf(std::abs(o.ref.at(k, i) - q0[k]) <= tol * (std::abs(q0[k]) + s[k] / aa), "reference_state", [&] { return vm::fmt("component %d of the reference state %.17g, flow %.17g", k, o.ref.at(k, i), q0[k]); });
        c.checkf(std::abs(o.bnd.at(k, i) - f[k]) <= tol * s[k], "wall_flux", [&] { return vm::fmt("component %d of the wall flux %.17g, flow %.17g", k, o.bnd.at(k, i), f[k]); });
      }
    });
    o.st.each([&](Idx i) {
      if (g->beta(dir, i) == 0) return; ++open; double keep = 1 - g->dsr[dir](i); shielded += g->slr[dir](i) > 0 || g->srr[dir](i) > 0;
      for (int k = 0; k < e->ncons; ++k) {
        c.checkf(std::abs(o.reg.at(k, i) - f[k]) <= tol * s[k], "regular_flux", [&] { return vm::fmt("component %d of the regular flux %.17g, flow %.17g (face fraction %.17g)", k, o.reg.at(k, i), f[k], g->beta(dir, i)); });
        c.checkf(std::abs(o.st.at(k, i) - keep * f[k]) <= 2 * tol * s[k], "stabilised_flux", [&] { return vm::fmt("component %d of the stabilised flux %.17g, flow %.17g (fractions us %.17g left %.17g right %.17g)", k, o.st.at(k, i), f[k], g->usr[dir](i), g->slr[dir](i), g->srr[dir](i)); });
        if (g->slr[dir](i) > 0) c.checkf(std::abs(o.sl.at(k, i) - f[k]) <= 2 * tol * s[k], "shielded_left", [&] { return vm::fmt("component %d: %.17g, flow %.17g", k, o.sl.at(k, i), f[k]); });
        if (g->srr[dir](i) > 0) c.checkf(std::abs(o.sr.at(k, i) - f[k]) <= 2 * tol * s[k], "shielded_right", [&] { return vm::fmt("component %d: %.17g, flow %.17g", k, o.sr.at(k, i), f[k]); });
      }
    });
    c.event("cut_cells", cut); c.event("open_faces", open); c.event("shielded_faces", shielded); c.sig(name + vm::fmt(" %d %.5f %ld %ld", dir, n[0], cut, shielded));
  }
  void wall(vm::Case& c) { // wall fluxes of arbitrary states carry pressure only
    vm::Rng& r = c.rng; md::Field q = states(r); std::vector<int> masks(100000, 0); int keep = dir; std::vector<Out> o; for (int d = 0; d < R; ++d) { dir = d; o.push_back(run(c, q, masks, nullptr, false)); } dir = keep; long cut = 0;
    // prescribed mirror states: the mirrored state itself gives the same flux
    md::Field mir(R, e->ncomp, cb.lo, cb.hi, 0, 0, 0); mir.each([&](Idx i) { for (int k = 0; k < e->ncomp; ++k) mir.at(k, i) = q.at(k, i); }); const Eigen::Matrix<double, R, 1> unit = UnitVector<R>(Direction::X);
    std::size_t pos = 0; std::vector<int> mk(std::size_t((cb.hi[0] - cb.lo[0]) * (cb.hi[1] - cb.lo[1]) * (cb.hi[2] - cb.lo[2])));
    cb.each([&](Idx i) {
      mk[pos] = r.coin(0.5); ++pos; if (!g->cut(i)) return; Complete<E> s(e->eqn), rot(e->eqn), ref(e->eqn); auto v = comp(q, i); md::unflat(s, v.data()); Eigen::Matrix<double, R, 1> nn; for (int d = 0; d < R; ++d) nn[d] = -g->nrm(i, d);
      Rotate(rot, s, MakeRotation(nn, unit), e->eqn); Reflect(ref, rot, unit, e->eqn); std::vector<double> w(v.size()); md::flat(ref, w.data()); mir.set(i, w.data());
    });
    auto om = run(c, q, mk, &mir, false);
    cb.each([&](Idx i) {
      if (!g->cut(i)) { for (int k = 0; k < e->ncons; ++k) c.check(o[0].bnd.at(k, i) == 0 && o[0].ref.at(k, i) == -1e30, "regular_cell_written", ""); return; }
      ++cut; auto v = comp(q, i); auto s = scale(v); double nn[3] = {0, 0, 0}, un = 0, sum[16] = {}; for (int d = 0; d < R; ++d) { nn[d] = -g->nrm(i, d); un += nn[d] * v[std::size_t(e->idx("Momentum", d))] / v[std::size_t(e->idx("Density"))]; }
      for (int d = 0; d < R; ++d) for (int k = 0; k < e->ncons; ++k) sum[k] += nn[d] * o[d].bnd.at(k, i);
      ref::Gas R0{v[std::size_t(e->idx("Density"))], un, v[std::size_t(e->idx("Pressure"))]}, L0 = R0; L0.u = -un; double p = ref::star(L0, R0, gamma).p; double big = 1 + p / R0.p;
      // normal momentum p n_k with the same pressure in every direction
      double pw = 0; for (int d = 0; d < R; ++d) pw += nn[d] * sum[e->idx("Momentum", d)];
      for (int k = 0; k < e->ncons; ++k) {
        if (e->comps[k].var == "Momentum") { c.checkf(std::abs(sum[k] - pw * nn[e->comps[k].i]) <= 1e-6 * big * s[k], "wall_shear", [&] { return vm::fmt("momentum %d through the wall %.17g, pressure %.17g normal %.17g", e->comps[k].i, sum[k], pw, nn[e->comps[k].i]); }); continue; }
        c.checkf(std::abs(sum[k]) <= 1e-6 * big * s[k], "wall_leak", [&] { return vm::fmt("component %d (%s) through the wall %.17g, scale %.17g, normal velocity %.17g", k, e->comps[k].var.c_str(), sum[k], s[k], un); });
      }
      if (Exact) c.checkf(std::abs(pw - p) <= 2e-6 * (p + R0.p), "wall_pressure", [&] { return vm::fmt("wall pressure %.17g, exact %.17g (density %.17g velocity %.17g pressure %.17g)", pw, p, R0.rho, un, R0.p); });
      else c.checkf(un >= 0 ? pw <= R0.p * (1 + 1e-9) + 1e-300 || un < 1e-6 : pw >= R0.p * (1 - 1e-9), "wall_pressure_side", [&] { return vm::fmt("wall pressure %.17g at pressure %.17g and velocity %.17g away from the wall", pw, R0.p, un); });
      for (int k = 0; k < e->ncons; ++k) c.checkf(std::abs(om.bnd.at(k, i) - o[dir].bnd.at(k, i)) <= 1e-11 * big * s[k], "mirror_state", [&] { return vm::fmt("component %d with the mirrored state given %.17g, otherwise %.17g", k, om.bnd.at(k, i), o[dir].bnd.at(k, i)); });
    });
    c.check(o[0].ref.guards_intact() && o[0].bnd.guards_intact(), "outside_written", ""); c.event("cut_cells", cut); c.sig(name + vm::fmt(" %ld %d", cut, int(in.hi[0] - in.lo[0])));
  }
  void fluxes(vm::Case& c) { // regular reduction, covered cells, time step
    vm::Rng& r = c.rng; md::Field q = states(r), q2 = q; int kind = r.range(0, 3); long covered = 0;
    q.each([&](Idx i) { if (g->vol(i) > 0) return; ++covered; std::vector<double> z(e->ncomp + 0UL); q.set(i, z.data()); for (auto& x : z) x = kind == 0 ? 1.0 : kind == 1 ? -3.0 : kind == 2 ? r.uniform(-1, 1) * 1e5 : std::exp(r.uniform(-5, 5)); q2.set(i, z.data()); });
    std::vector<int> masks(100000, 0); md::Field qc = q; auto o = run(c, q, masks, nullptr), o2 = run(c, q2, masks, nullptr); long open = 0, regular = 0;
    c.check(!std::memcmp(q.buf.data(), qc.buf.data(), q.buf.size() * 8), "input_changed", "");
    for (auto f : {&o.ref, &o.bnd, &o.reg, &o.st, &o.sl, &o.sr}) c.check(f->guards_intact(), "outside_written", "");
    double dtmin = std::numeric_limits<double>::infinity(); std::array<Complete<E>, 2 * w> sten; sten.fill(Complete<E>(e->eqn)); std::array<CompleteArray<E>, 2 * w> stena; stena.fill(CompleteArray<E>(e->eqn)); Conservative<E> nf(e->eqn); ConservativeArray<E> nfa(e->eqn);
    o.st.each([&](Idx i) {
      for (int k = 0; k < e->ncons; ++k) c.checkf(std::isfinite(o.reg.at(k, i)) && std::abs(o.reg.at(k, i)) < 1e29, "not_written", [&] { return vm::fmt("component %d face fraction %.17g: %g", k, g->beta(dir, i), o.reg.at(k, i)); });
      if (g->beta(dir, i) == 0) return; ++open; std::vector<double> s(e->ncons + 0UL); bool all = true;
      for (int k = -w; k < w; ++k) { Idx j = sh(i, dir, k); if (g->vol(j) > 0) { auto t = scale(comp(q, j)); for (std::size_t l = 0; l < s.size(); ++l) s[l] = std::max(s[l], t[l]); } all &= g->vol(j) > 0; }
      for (int k = 0; k < e->ncons; ++k) {
        c.checkf(std::abs(o.reg.at(k, i) - o2.reg.at(k, i)) <= 1e-10 * s[k], "covered_regular", [&] { return vm::fmt("component %d of the regular flux %.17g, with other values in covered cells %.17g", k, o.reg.at(k, i), o2.reg.at(k, i)); });
        c.checkf(std::abs(o.st.at(k, i) - o2.st.at(k, i)) <= 1e-10 * (s[k] + std::abs(o.st.at(k, i))), "covered_stabilised", [&] { return vm::fmt("component %d of the stabilised flux %.17g, with other values in covered cells %.17g", k, o.st.at(k, i), o2.st.at(k, i)); });
      }
      if (all) { ++regular; // open faces between open cells: the flux of the base method
        for (int k = 0; k < 2 * w; ++k) { auto v = comp(q, sh(i, dir, k - w)); md::unflat(sten[k], v.data()); std::vector<double> v8; for (double x : v) for (int l = 0; l < md::W; ++l) v8.push_back(x); md::unflat8(stena[k], v8.data()); }
        fm->ComputeNumericFlux(nfa, stena, Duration(dt), dx, Direction(dir)); std::vector<double> f8(std::size_t(e->ncons * md::W)); md::flat8(nfa, f8.data());
        for (int k = 0; k < e->ncons; ++k) { double want = f8[std::size_t(k * md::W)];
          c.checkf(std::abs(o.reg.at(k, i) - want) <= 1e-10 * s[k], "regular_flux", [&] { return vm::fmt("component %d of the flux between open cells %.17g, base method %.17g", k, o.reg.at(k, i), want); });
          if (g->beta(dir, i) == 1 && g->beta(dir, sh(i, dir, -1)) == 1 && g->beta(dir, sh(i, dir, 1)) == 1) c.checkf(o.st.at(k, i) == o.reg.at(k, i), "reduction", [&] { return vm::fmt("component %d of the stabilised flux %.17g, regular flux %.17g", k, o.st.at(k, i), o.reg.at(k, i)); }); }
      }
      // the combination of the parts, the wall values taken from the adjacent cells
      for (int k = 0; k < e->ncons; ++k) {
        double dl = std::max(0.0, std::min(1.0, 0.5 - g->bctr(sh(i, dir, -1), dir))), dr = std::max(0.0, std::min(1.0, 0.5 + g->bctr(i, dir))), F = o.reg.at(k, i), want = g->usr[dir](i) * F;
        if (g->slr[dir](i) > 0) want += g->slr[dir](i) * (dl * F + (1 - dl) * o.bnd.at(k, sh(i, dir, -1))); if (g->srr[dir](i) > 0) want += g->srr[dir](i) * (dr * F + (1 - dr) * o.bnd.at(k, i));
        c.checkf(std::abs(o.st.at(k, i) - want) <= 1e-13 * (s[k] + std::abs(want)), "combination", [&] { return vm::fmt("component %d: %.17g, expected %.17g", k, o.st.at(k, i), want); });
      }
    });
    Box3 all = cb; all.lo[dir] += w; all.hi[dir] -= w - 1; long judged = 0;
    all.each([&](Idx i) { if (g->beta(dir, i) == 0) return; ++judged; for (int k = 0; k < 2 * w; ++k) { auto v = comp(q, sh(i, dir, k - w)); if (g->vol(sh(i, dir, k - w)) == 0) v = comp(q, sh(i, dir, k < w ? -1 : 0)); md::unflat(sten[k], v.data()); } if (name.rfind("MusclHancockPrim", 0) == 0) { for (int k = 0; k < 2 * w; ++k) { std::vector<double> v(e->ncomp + 0UL), v8; md::flat(sten[k], v.data()); for (double x : v) for (int l = 0; l < md::W; ++l) v8.push_back(x); md::unflat8(stena[k], v8.data()); } dtmin = std::min(dtmin, fm->ComputeStableDt(stena, dx, Direction(dir)).minCoeff()); } else dtmin = std::min(dtmin, fm->ComputeStableDt(sten, dx, Direction(dir))); });
    c.checkf(o.dt == dtmin || std::abs(o.dt - dtmin) <= 1e-5 * dtmin, "time_step", [&] { return vm::fmt("time step %.17g, smallest over the %ld open faces %.17g", o.dt, judged, dtmin); });
    c.checkf(o.dt == o2.dt || std::abs(o.dt - o2.dt) <= 1e-9 * o.dt, "covered_time_step", [&] { return vm::fmt("time step %.17g, with other values in covered cells %.17g", o.dt, o2.dt); });
    c.event("open_faces", open); c.event("regular_faces", regular); c.event("covered_cells", covered); c.sig(name + vm::fmt(" %d %ld %ld %ld", dir, open, regular, covered));
  }
};
template <int N> using G = PerfectGas<N>;
template <typename F> void pick(vm::Case& c, bool planar_cut, F f) {
  using HG2 = FluxMethod<Hll<G<2>, EinfeldtSignalVelocities<G<2>>>>; using HG3 = FluxMethod<Hll<G<3>, EinfeldtSignalVelocities<G<3>>>>; (void)sizeof(HG3);
  using M2 = FluxMethod<MusclHancock2<G<2>, PrimitiveGradient<G<2>, CentralDifferenceGradient<VanLeerLimiter>>, PrimitiveReconstruction<G<2>>, perfect_gas::Hllem<G<2>, true>>>;
  using M3 = FluxMethod<MusclHancock2<G<3>, PrimitiveGradient<G<3>, CentralDifferenceGradient<VanLeerLimiter>>, PrimitiveReconstruction<G<3>>, perfect_gas::Hllem<G<3>, true>>>;
  using X2 = PerfectGasMix<2>; vm::Rng& r = c.rng;
  switch (r.range(0, 8)) {
  case 0: { Kbn<G<2>, FluxMethod<Godunov<G<2>>>, ExactRiemannSolver<G<2>>, true> k(c, md::make_gas<2>(r), "Godunov+Exact/PerfectGas2", planar_cut); return f(k); }
  case 1: { Kbn<G<3>, FluxMethod<Godunov<G<3>>>, ExactRiemannSolver<G<3>>, true> k(c, md::make_gas<3>(r), "Godunov+Exact/PerfectGas3", planar_cut); return f(k); }
  case 2: { Kbn<G<2>, perfect_gas::HllemMethod<G<2>, true>, perfect_gas::HllemMethod<G<2>, true>, false> k(c, md::make_gas<2>(r), "HllemL+HllemL/PerfectGas2", planar_cut); return f(k); }
  case 3: { Kbn<G<2>, HG2, perfect_gas::HllemMethod<G<2>, false>, false> k(c, md::make_gas<2>(r), "Hlle+Hllem/PerfectGas2", planar_cut); return f(k); }
  case 4: { Kbn<G<2>, M2, ExactRiemannSolver<G<2>>, true> k(c, md::make_gas<2>(r), "Muscl2Prim+Exact/PerfectGas2", planar_cut); return f(k); }
  case 5: { Kbn<G<3>, M3, ExactRiemannSolver<G<3>>, true> k(c, md::make_gas<3>(r), "Muscl2Prim+Exact/PerfectGas3", planar_cut); return f(k); }
  case 6: { Kbn<G<3>, perfect_gas::HllemMethod<G<3>, true>, HG3, false> k(c, md::make_gas<3>(r), "HllemL+Hlle/PerfectGas3", planar_cut); return f(k); }
  case 7: { Kbn<G<2>, FluxMethod<perfect_gas::MusclHancockPrim<2>>, ExactRiemannSolver<G<2>>, true> k(c, md::make_gas<2>(r), "MusclHancockPrim+Exact/PerfectGas2", planar_cut); return f(k); }
  default: { Kbn<X2, perfect_gas::HllemMethod<X2, true>, perfect_gas::HllemMethod<X2, true>, false> k(c, md::make_mix<2>(r), "HllemL+HllemL/PerfectGasMix2", planar_cut); return f(k); }
  }
}
ORACLE("uniform_flow", 3000, 90000) { pick(c, true, [&](auto& k) { k.uniform(c); }); }
ORACLE("wall", 2000, 60000) { pick(c, c.rng.coin(), [&](auto& k) { k.wall(c); }); }
ORACLE("fluxes", 3000, 90000) { pick(c, c.rng.coin(), [&](auto& k) { k.fluxes(c); }); }
} // namespace
