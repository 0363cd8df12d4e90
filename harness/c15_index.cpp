// C15: index boxes, loops, sub-views and reflecting walls against sets of cells
// that are enumerated one by one.
#include "adapter.hpp"
#include "ad_gas.hpp"
#include "ad_mix.hpp"
#include "ad_igm.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/equations/ShallowWater.hpp"
#include <set>
using namespace fub;
namespace {
template <int R> using IB = IndexBox<R>;
template <int R> std::string show(const IB<R>& b) { std::string s = "["; for (int d = 0; d < R; ++d) s += std::to_string(b.lower[d]) + ":" + std::to_string(b.upper[d]) + (d + 1 < R ? "," : "]"); return s; }
template <int R> std::string show(const Index<R>& b) { std::string s = "("; for (int d = 0; d < R; ++d) s += std::to_string(b[d]) + (d + 1 < R ? "," : ")"); return s; }
template <int R> bool in(const IB<R>& b, const Index<R>& i) { for (int d = 0; d < R; ++d) if (i[d] < b.lower[d] || i[d] >= b.upper[d]) return false; return true; }
template <int R> std::set<Index<R>> cells(const IB<R>& b) {
  std::set<Index<R>> s; Index<R> i = b.lower;
  for (int d = 0; d < R; ++d) if (b.lower[d] >= b.upper[d]) return s;
  for (;;) { s.insert(i); int d = 0; for (; d < R; ++d) { if (++i[d] < b.upper[d]) break; i[d] = b.lower[d]; } if (d == R) return s; }
}
template <int R> IB<R> rbox(vm::Rng& r, int off, int len, double pempty) { IB<R> b; for (int d = 0; d < R; ++d) { b.lower[d] = r.range(-off, off); b.upper[d] = b.lower[d] + (r.coin(pempty) ? 0 : r.range(1, len)); } return b; }
template <int R> bool empty(const IB<R>& b) { for (int d = 0; d < R; ++d) if (b.lower[d] >= b.upper[d]) return true; return false; }

template <int R> void algebra(vm::Case& c) {
  vm::Rng& r = c.rng; int len = R == 1 ? 12 : R == 2 ? 6 : R == 3 ? 4 : 3;
  IB<R> a = rbox<R>(r, 4, len, 0.05), b = rbox<R>(r, 4, len, 0.05); int d = r.range(0, R - 1); Direction dir = Direction(d);
  std::string id = show<R>(a) + show<R>(b) + vm::fmt(" dir %d", d);
  auto A = cells<R>(a), B = cells<R>(b);
  c.checkf((a == b) == (a.lower == b.lower && a.upper == b.upper) && (a != b) == !(a == b) && a == a, "equality", [&] { return id; });
  // loops visit every cell of the box once
  { std::vector<Index<R>> v; ForEachIndex(a, [&](auto... is) { v.push_back(Index<R>{std::ptrdiff_t(is)...}); }); std::set<Index<R>> s(v.begin(), v.end());
    c.checkf(s == A && v.size() == A.size(), "loop_cells", [&] { return id + vm::fmt(" visited %zu of %zu", v.size(), A.size()); }); c.event("loop_cells", v.size()); }
  { IB<R> e = a; e.lower[d] = e.upper[d] + r.range(0, 3); long n = 0; ForEachIndex(e, [&](auto...) { ++n; }); c.check(n == 0, "loop_empty", show<R>(e)); }
  // intersection
  { IB<R> x = Intersect(a, b); std::set<Index<R>> want; for (auto& i : A) if (B.count(i)) want.insert(i); c.checkf(cells<R>(x) == want, "intersect", [&] { return id + show<R>(x); });
    bool ok = true; for (int k = 0; k < R; ++k) ok &= x.upper[k] >= x.lower[k]; c.check(ok, "intersect_negative_extent", id); c.check(cells<R>(Intersect(b, a)) == want, "intersect_commutes", id); }
  // containment (of boxes with cells)
  if (!A.empty() && !B.empty()) {
    IB<R> sub = a; if (r.coin()) { for (int k = 0; k < R; ++k) { sub.lower[k] = r.range(int(a.lower[k]), int(a.upper[k]) - 1); sub.upper[k] = r.range(int(sub.lower[k]) + 1, int(a.upper[k])); } } else sub = b;
    bool want = true; for (auto& i : cells<R>(sub)) want &= A.count(i) > 0;
    c.checkf(Contains(a, sub) == want, "contains_box", [&] { return show<R>(a) + show<R>(sub); });
    for (int n = 0; n < 8; ++n) { Index<R> i; for (int k = 0; k < R; ++k) i[k] = r.coin(0.5) ? r.choose({int(a.lower[k]) - 1, int(a.lower[k]), int(a.upper[k]) - 1, int(a.upper[k])}) : r.range(-6, 10); c.checkf(Contains(a, i) == (A.count(i) > 0), "contains_index", [&] { return show<R>(a) + show<R>(i); }); }
  }
  // growing and shrinking
  { std::array<std::ptrdiff_t, 2> w{r.range(0, 4), r.range(0, 4)}; IB<R> g = Grow(a, dir, w), s = Shrink(a, dir, w); bool ok = true;
    for (int k = 0; k < R; ++k) ok &= g.lower[k] == a.lower[k] - (k == d) * w[0] && g.upper[k] == a.upper[k] + (k == d) * w[1];
    c.checkf(ok, "grow", [&] { return id + show<R>(g); });
    std::set<Index<R>> want; for (auto& i : A) if (i[d] - a.lower[d] >= w[0] && a.upper[d] - 1 - i[d] >= w[1]) want.insert(i);
    c.checkf(cells<R>(s) == want, "shrink", [&] { return id + show<R>(s); });
    c.check(Shrink(g, dir, w) == a && Grow(s, dir, w) == a, "grow_shrink_inverse", id); }
  // shifted indices
  { Index<R> i; for (auto& x : i) x = r.range(-9, 9); std::ptrdiff_t n = r.range(-5, 5); Index<R> e = i; e[d] += n; c.check(Shift(i, dir, n) == e, "shift", id);
    Index<R> l = i; l[d] -= n; c.check(LeftTo(i, dir, n) == l, "left_to", id); --(l = i)[d]; c.check(LeftTo(i, dir) == l, "left_to_default", id);
    Index<R> q = i; q[d] += n - 1; c.check(RightTo(i, dir, n) == q && RightTo(i, dir) == i, "right_to", id);
    // the stencil of a face: left neighbours 1..n and right neighbours 1..n are distinct and adjacent
    int w = r.range(0, 3); IB<R> nb = Neighborhood<R>(i, w); bool ok = true; for (int k = 0; k < R; ++k) ok &= nb.lower[k] == i[k] - w && nb.upper[k] == i[k] + w + 1; c.check(ok, "neighborhood", id);
    auto em = EmbedIndex(i, dir); ok = em.size() == R + 1 && em[R] == d; for (int k = 0; k < R; ++k) ok &= em[k] == i[k]; c.check(ok, "embed_index", id); }
  // boxes of one dimension more and less
  if constexpr (R > 1) {
    IB<R - 1> p = Project<R - 1>(a); bool ok = true; for (int k = 0; k + 1 < R; ++k) ok &= p.lower[k] == a.lower[k] && p.upper[k] == a.upper[k]; c.check(ok, "project", id);
    c.check(Embed<R>(p, {a.lower[R - 1], a.upper[R - 1]}) == a, "embed", id);
  }
  c.describe(id); c.sig(id);
}
// --------------------------------------------------------------- sub-views
template <int R, typename Layout> PatchDataView<int, R, Layout> whole(std::vector<int>& buf, const IB<R>& b, std::array<std::ptrdiff_t, R> pad) {
  std::array<std::ptrdiff_t, R> e{}; for (int d = 0; d < R; ++d) e[d] = b.upper[d] - b.lower[d];
  if constexpr (std::is_same_v<Layout, layout_left>) return PatchDataView<int, R, Layout>(mdspan<int, R, Layout>(buf.data(), dynamic_extents<R>(e)), b.lower);
  else { std::array<std::ptrdiff_t, R> s{}; std::ptrdiff_t n = 1; for (int d = 0; d < R; ++d) { s[d] = n; n *= e[d] + pad[d]; }
    return PatchDataView<int, R, Layout>(mdspan<int, R, Layout>(buf.data(), layout_stride::mapping<dynamic_extents<R>>(dynamic_extents<R>(e), s)), b.lower); }
}
template <int R, typename Layout> void views(vm::Case& c, const char* lay) {
  vm::Rng& r = c.rng; int len = R == 1 ? 12 : R == 2 ? 7 : R == 3 ? 5 : 3; IB<R> a = rbox<R>(r, 5, len, 0.0); if (r.coin(0.3)) { int k = r.range(0, R - 1); a.upper[k] = a.lower[k] + 1; }
  std::array<std::ptrdiff_t, R> pad{}; std::size_t n = 1; for (int d = 0; d < R; ++d) { pad[d] = r.range(0, 2); n *= std::size_t(a.upper[d] - a.lower[d] + pad[d]); }
  std::vector<int> buf(n); for (std::size_t i = 0; i < n; ++i) buf[i] = int(i) + 1000;
  auto v = whole<R, Layout>(buf, a, pad); std::array<std::ptrdiff_t, R> s{}; for (int d = 0; d < R; ++d) s[d] = v.Stride(d);
  auto at = [&](const Index<R>& i) { std::ptrdiff_t o = 0; for (int d = 0; d < R; ++d) o += (i[d] - a.lower[d]) * s[d]; return &buf[std::size_t(o)]; };
  std::string id = std::string(lay) + " " + show<R>(a);
  c.check(v.Box() == a && v.Origin() == a.lower, "view_box", id);
  bool ok = true; std::set<int*> addr;
  ForEachIndex(v.Box(), [&](auto... is) { Index<R> i{is...}; ok &= &v(i) == at(i) && &v(is...) == at(i); addr.insert(&v(i)); if constexpr (R > 1) { Index<R - 1> j; std::copy_n(i.begin(), R - 1, j.begin()); ok &= &v(j, int(i[R - 1])) == at(i); } });
  c.check(ok && addr.size() == cells<R>(a).size(), "element", id);
  PatchDataView<const int, R, Layout> cv(v); c.check(&cv(a.lower) == at(a.lower) && cv.Box() == a, "const_view", id);
  // loops over the mapping of a view visit every local index once, also for
  // patches that are one cell wide
  { std::vector<Index<R>> seen; ForEachIndex(v.Mapping(), [&](auto... is) { seen.push_back(Index<R>{std::ptrdiff_t(is)...}); }); IB<R> z; for (int d = 0; d < R; ++d) { z.lower[d] = 0; z.upper[d] = a.upper[d] - a.lower[d]; }
    std::set<Index<R>> t(seen.begin(), seen.end()); c.checkf(t == cells<R>(z) && seen.size() == t.size(), "mapping_loop", [&] { return id; }); }
  // nested sub-views
  IB<R> b = a; std::string chain = id; PatchDataView<int, R, layout_stride> sub = v.Subview(a);
  for (int depth = r.range(1, 3); depth > 0; --depth) {
    for (int d = 0; d < R; ++d) { b.lower[d] = r.range(int(b.lower[d]), int(b.upper[d]) - 1); b.upper[d] = r.range(int(b.lower[d]) + 1, int(b.upper[d])); }
    sub = sub.Subview(b); chain += show<R>(b); c.check(sub.Box() == b, "subview_box", chain); ok = true;
    ForEachIndex(b, [&](auto... is) { Index<R> i{is...}; ok &= &sub(i) == at(i); }); c.check(ok, "subview_element", chain);
    long n2 = 0; ForEachIndex(sub.Mapping(), [&](auto...) { ++n2; }); c.check(n2 == long(cells<R>(b).size()), "subview_mapping_loop", chain);
  }
  { IB<R> e = b; int k = r.range(0, R - 1); e.upper[k] = e.lower[k]; auto es = sub.Subview(e); c.check(es.Box() == e, "subview_empty", chain); long n2 = 0; ForEachIndex(es.Box(), [&](auto...) { ++n2; }); ForEachIndex(es.Mapping(), [&](auto...) { ++n2; }); c.check(n2 == 0, "subview_empty_loop", chain); }
  // one component of an array of components
  if constexpr (R > 1) {
    IB<R> z = a; z.upper[R - 1] -= z.lower[R - 1]; z.lower[R - 1] = 0; auto w = whole<R, Layout>(buf, z, pad); int k = r.range(0, int(z.upper[R - 1]) - 1); auto sl = SliceLast(w, k); ok = sl.Box() == Project<R - 1>(z);
    ForEachIndex(sl.Box(), [&](auto... is) { ok &= &sl(is...) == &w(is..., k); }); c.check(ok, "slice_last", id);
  }
  c.describe(chain); c.sig(chain); c.event("views");
}
// ------------------------------------------------------------------- rows
template <int R> void rows(vm::Case& c) {
  vm::Rng& r = c.rng; using E = PerfectGas<R>; E eqn; int nc = R + 4;
  md::Idx lo1{}, hi1{}, lo2{}, hi2{}; for (int d = 0; d < R; ++d) { int n = r.coin(0.2) ? 1 : r.range(1, R == 1 ? 30 : R == 2 ? 10 : 6); lo1[d] = r.range(-5, 5); hi1[d] = lo1[d] + n; lo2[d] = lo1[d] - r.range(0, 2); hi2[d] = hi1[d] + r.range(0, 2); }
  md::Field f(R, nc, lo1, hi1, r.range(0, 3), r.range(0, 3), r.range(0, 7)), g(R, nc, lo2, hi2, r.range(0, 3), r.range(0, 3), r.range(0, 7)), h(R, 1, lo1, hi1, r.range(0, 3), r.range(0, 3), 0);
  int k = 0; f.each([&](md::Idx i) { for (int q = 0; q < nc; ++q) f.at(q, i) = ++k; }); g.each([&](md::Idx i) { for (int q = 0; q < nc; ++q) g.at(q, i) = -(++k); }); h.each([&](md::Idx i) { h.at(0, i) = 0; });
  auto vf = md::make_view<Complete<E>>(eqn, f); auto vg0 = md::make_view<const Complete<E>>(eqn, g); IB<R> box = Box<0>(vf); auto vg = Subview(vg0, box);
  std::array<std::ptrdiff_t, R> e{}, s{}, o{}; for (int d = 0; d < R; ++d) { e[d] = hi1[d] - lo1[d]; s[d] = h.stride(d); o[d] = lo1[d]; }
  PatchDataView<double, R, layout_stride> vh(mdspan<double, R, layout_stride>(h.ptr(0), layout_stride::mapping<dynamic_extents<R>>(dynamic_extents<R>(e), s)), o);
  const int vmn = r.range(1, 8); long nrows = 0; bool width = true; std::string id = vm::fmt("rank %d %s", R, show<R>(box).c_str());
  auto body = [&](span<double> x, const Row<Complete<E>>& a, const Row<const Complete<E>>& b) {
    ++nrows; auto pa = Begin(a); auto pb = Begin(b); auto pe = End(b); width &= x.size() == e[0] && get<0>(pe) - get<0>(pb) == e[0]; CompleteArray<E> qa(eqn), qb(eqn); std::ptrdiff_t left = x.size();
    for (std::ptrdiff_t i = 0; i < x.size(); ++i) x[i] += 1;
    while (left > 0) { int m = int(std::min<std::ptrdiff_t>(left, vmn)); double t[128] = {}, u[128] = {}; LoadN(qa, AsConst(pa), m); LoadN(qb, pb, m); md::flat8(qa, t); md::flat8(qb, u); for (int q = 0; q < 128; ++q) t[q] -= u[q]; md::unflat8(qa, t); StoreN(pa, qa, m); Advance(pa, m); Advance(pb, m); left -= m; }
  };
  md::Field f0 = f; ForEachRow(std::tuple{vh, vf, vg}, body);
  bool once = true, right = true; f.each([&](md::Idx i) { once &= h.at(0, i) == 1; for (int q = 0; q < nc; ++q) right &= f.at(q, i) == f0.at(q, i) - g.at(q, i); });
  long want = 1; for (int d = 1; d < R; ++d) want *= e[d];
  c.check(nrows == want, "row_count", id + vm::fmt(" rows %ld of %ld", nrows, want)); c.check(width, "row_width", id); c.check(once, "row_cells", id); c.check(right, "row_alignment", id);
  c.check(f.guards_intact() && g.guards_intact() && h.guards_intact(), "row_guard", id);
  // shrunk views address the same cells
  int d = r.range(0, R - 1); std::array<std::ptrdiff_t, 2> w{r.range(0, 1), r.range(0, 1)}; if (e[d] > w[0] + w[1]) { auto sv = Shrink(vf, Direction(d), w); IB<R> sb = Shrink(box, Direction(d), w); bool ok = Box<0>(sv) == sb; Complete<E> x(eqn), y(eqn); std::vector<double> p(nc + 0UL), q(nc + 0UL);
    ForEachIndex(sb, [&](auto... is) { Load(x, AsConst(sv), {is...}); Load(y, AsConst(vf), {is...}); md::flat(x, p.data()); md::flat(y, q.data()); ok &= p == q; }); c.check(ok, "view_shrink", id); }
  c.event("rows", nrows); c.describe(id); c.sig(vm::fmt("%s %s %s", id.c_str(), show<R>(Box<0>(vg0)).c_str(), std::to_string(f.cstride + 1000 * g.cstride).c_str()));
}
// ---------------------------------------------------------- reflecting walls
template <int R> md::Idx tangent(vm::Rng& r) { md::Idx i{}; for (int d = 0; d < R; ++d) i[d] = r.range(1, R == 1 ? 12 : R == 2 ? 8 : 5); return i; }
template <typename A> void wall(vm::Case& c, A& ad) {
  vm::Rng& r = c.rng; using E = std::decay_t<decltype(ad.eqn)>; constexpr int R = E::Rank(); int d = r.range(0, R - 1), side = r.range(0, 1), gw = r.range(1, 3), inner = gw + r.range(0, 3);
  md::Idx n = tangent<R>(r), lo{}, hi{}; for (int k = 0; k < R; ++k) { lo[k] = r.range(-4, 4); hi[k] = lo[k] + (k == d ? gw + inner : n[k]); }
  md::Field f(R, ad.ncomp, lo, hi, r.range(0, 2), r.range(0, 2), r.range(0, 5)); std::vector<double> q(ad.ncomp + 0UL), p(ad.ncomp + 0UL);
  md::Regime reg = r.choose({md::Regime::mild, md::Regime::moderate, md::Regime::strong}); f.each([&](md::Idx i) { ad.random(r, reg, q.data()); f.set(i, q.data()); });
  // the layers beyond the wall; possibly only a part of the tangential range
  IB<R> ghost; for (int k = 0; k < R; ++k) { ghost.lower[k] = f.lo[k]; ghost.upper[k] = f.hi[k]; if (k != d && r.coin(0.3)) { ghost.lower[k] = r.range(int(f.lo[k]), int(f.hi[k]) - 1); ghost.upper[k] = r.range(int(ghost.lower[k]) + 1, int(f.hi[k])); } }
  std::ptrdiff_t face = side == 0 ? f.lo[d] + gw : f.hi[d] - gw; if (side == 0) ghost.upper[d] = face; else ghost.lower[d] = face; // first cell right of the wall
  md::Field before = f; auto view = md::make_view<Complete<E>>(ad.eqn, f); ReflectiveBoundary<E> bc(ad.eqn);
  std::string id = vm::fmt("%s dir %d side %d width %d box %s", ad.name.c_str(), d, side, gw, show<R>(ghost).c_str()); c.describe(id);
  bc.FillBoundary(view, ghost, Direction(d), side);
  bool inner_ok = true, mirror = true, normal = true; std::string bad;
  f.each([&](md::Idx i) {
    Index<R> j; for (int k = 0; k < R; ++k) j[k] = i[k];
    f.get(i, q.data()); before.get(i, p.data());
    if (!in<R>(ghost, j)) { inner_ok &= std::memcmp(q.data(), p.data(), q.size() * 8) == 0; return; }
    md::Idx m = i; m[d] = 2 * face - 1 - i[d]; before.get(m, p.data());
    for (int k = 0; k < ad.ncomp; ++k) { bool mom = ad.comps[k].var == "Momentum" || ad.comps[k].var == "momentum"; double sc = std::abs(p[k]);
      if (mom) { double mm = 0; for (int l = 0; l < ad.ncomp; ++l) if (ad.comps[l].var == ad.comps[k].var) mm += p[l] * p[l]; sc = std::sqrt(mm); }
      if (mom && ad.comps[k].i == d) normal &= std::abs(q[k] + p[k]) <= 4e-15 * sc; else { bool ok = mom ? std::abs(q[k] - p[k]) <= 4e-15 * sc : q[k] == p[k]; if (!ok) bad = ad.comps[k].var; mirror &= ok; } }
  });
  c.check(inner_ok, "interior_changed", id); c.check(mirror, "mirror", id + " " + bad); c.check(normal, "normal_momentum", id); c.check(f.guards_intact(), "outside_written", id);
  for (int t = 0; t < 3; ++t) { Index<R> g, m; for (int k = 0; k < R; ++k) g[k] = r.range(int(ghost.lower[k]), int(ghost.upper[k]) - 1); m = g; m[d] = 2 * face - 1 - g[d]; c.check(ReflectIndex(g, ghost, Direction(d), side) == m, "reflect_index", id); }
  c.event("ghost_cells", long(cells<R>(ghost).size())); c.sig(id + vm::fmt(" %d", int(reg)));
}
// the flux through a wall carries no mass and no energy
template <typename FM, typename A> void wall_flux(vm::Case& c, A& ad, FM fm, const char* mname) {
  vm::Rng& r = c.rng; using E = std::decay_t<decltype(ad.eqn)>; constexpr int R = E::Rank(); constexpr int W = int(FM::StencilSize) / 2; int d = r.range(0, R - 1), side = r.range(0, 1);
  md::Idx lo{}, hi{}; for (int k = 0; k < R; ++k) { lo[k] = r.range(-3, 3); hi[k] = lo[k] + (k == d ? 2 * W : 1); }
  md::Field f(R, ad.ncomp, lo, hi, 1, 1, 0); std::vector<double> q(ad.ncomp + 0UL), base(ad.ncomp + 0UL);
  ad.random(r, md::Regime::mild, base.data()); bool uniform = r.coin(0.3);
  f.each([&](md::Idx i) { if (!uniform) ad.random(r, r.coin(0.7) ? md::Regime::mild : md::Regime::moderate, q.data()); else q = base; f.set(i, q.data()); });
  IB<R> ghost; for (int k = 0; k < R; ++k) { ghost.lower[k] = f.lo[k]; ghost.upper[k] = f.hi[k]; } if (side == 0) ghost.upper[d] = f.lo[d] + W; else ghost.lower[d] = f.lo[d] + W;
  auto view = md::make_view<Complete<E>>(ad.eqn, f); ReflectiveBoundary<E>(ad.eqn).FillBoundary(view, ghost, Direction(d), side);
  std::array<Complete<E>, FM::StencilSize> st; st.fill(Complete<E>(ad.eqn)); double amax = 0, rc = 0, ec = 0;
  for (int i = 0; i < 2 * W; ++i) { Index<R> j = [&] { Index<R> x; for (int k = 0; k < R; ++k) x[k] = f.lo[k]; x[d] += i; return x; }(); Load(st[i], AsConst(view), j); const auto& s = st[i]; double mm = 0; for (int k = 0; k < R; ++k) mm += s.momentum[k] * s.momentum[k]; double a = s.speed_of_sound + std::sqrt(mm) / s.density; amax = std::max(amax, a); rc = std::max(rc, s.density * a); ec = std::max(ec, (s.energy + s.pressure) * a); }
  double dx = r.logu(1e-3, 10), dt = 0.4 * dx / amax * r.uniform(0, 1); Conservative<E> flux(ad.eqn); fm.ComputeNumericFlux(flux, st, Duration(dt), dx, Direction(d));
  std::string id = vm::fmt("%s %s dir %d side %d mass flux %.3e of %.3e energy flux %.3e of %.3e", ad.name.c_str(), mname, d, side, flux.density, rc, flux.energy, ec); c.describe(id);
  c.check(std::abs(flux.density) <= 1e-9 * rc, "mass_through_wall", id); c.check(std::abs(flux.energy) <= 1e-9 * ec, "energy_through_wall", id);
  c.event("wall_fluxes"); c.sig(vm::fmt("%s %s %d %d %g", ad.name.c_str(), mname, d, side, flux.momentum[d]));
}
}
ORACLE("index.boxes", 60000, 1000000) { switch (c.rng.range(1, 4)) { case 1: return algebra<1>(c); case 2: return algebra<2>(c); case 3: return algebra<3>(c); default: return algebra<4>(c); } }
ORACLE("index.views", 40000, 600000) {
  switch (c.rng.range(0, 7)) {
  case 0: return views<1, layout_left>(c, "left"); case 1: return views<2, layout_left>(c, "left"); case 2: return views<3, layout_left>(c, "left"); case 3: return views<4, layout_left>(c, "left");
  case 4: return views<1, layout_stride>(c, "stride"); case 5: return views<2, layout_stride>(c, "stride"); case 6: return views<3, layout_stride>(c, "stride"); default: return views<4, layout_stride>(c, "stride");
  }
}
ORACLE("index.rows", 20000, 400000) { switch (c.rng.range(1, 3)) { case 1: return rows<1>(c); case 2: return rows<2>(c); default: return rows<3>(c); } }
ORACLE("wall.fill", 12000, 200000) {
  switch (c.rng.range(0, 7)) {
  case 0: return wall(c, *md::make_gas<1>(c.rng)); case 1: return wall(c, *md::make_gas<2>(c.rng)); case 2: return wall(c, *md::make_gas<3>(c.rng));
  case 3: return wall(c, *md::make_mix<1>(c.rng)); case 4: return wall(c, *md::make_mix<2>(c.rng)); case 5: return wall(c, *md::make_mix<3>(c.rng));
  case 6: return c.rng.coin(0.3) ? wall(c, *md::make_igm<1>(c.rng)) : wall(c, *md::make_gas<1>(c.rng)); default: return c.rng.coin(0.3) ? wall(c, *md::make_igm<2>(c.rng)) : wall(c, *md::make_gas<2>(c.rng));
  }
}
template <int N> void gas_flux(vm::Case& c) {
  using G = PerfectGas<N>; auto ad = md::make_gas<N>(c.rng); ad->novac = true;
  switch (c.rng.range(0, 4)) {
  case 0: return wall_flux(c, *ad, FluxMethod<Godunov<G>>(ad->eqn), "Godunov");
  case 1: return wall_flux(c, *ad, perfect_gas::HllemMethod<G, true>(ad->eqn), "HllemLarrouturou");
  case 2: return wall_flux(c, *ad, perfect_gas::HllemMethod<G, false>(ad->eqn), "Hllem");
  case 3: return wall_flux(c, *ad, FluxMethod<MusclHancock<G>>(ad->eqn), "MusclHancock");
  default: return wall_flux(c, *ad, FluxMethod<Hll<G, EinfeldtSignalVelocities<G>>>(Hll<G, EinfeldtSignalVelocities<G>>(ad->eqn)), "Hlle");
  }
}
ORACLE("wall.flux", 20000, 400000) { switch (c.rng.range(1, 3)) { case 1: return gas_flux<1>(c); case 2: return gas_flux<2>(c); default: return gas_flux<3>(c); } }
