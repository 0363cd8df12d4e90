// C21: refinement tagging against direct cell-by-cell definitions.
#include "adapter.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/tagging_method/GradientDetector.hpp"
#include "fub/tagging_method/TagBuffer.hpp"
#include "fub/tagging_method/TagCutCells.hpp"
using namespace fub;
namespace {
// Strided array inside of a larger allocation; everything outside of the box
// carries a guard value.
template <typename T> struct Arr {
  int rank; md::Idx lo{}, hi{}, alo{}, ahi{}; std::vector<T> buf; T guard;
  Arr(vm::Rng& r, int rank_, md::Idx lo_, md::Idx hi_, T g) : rank(rank_), lo(lo_), hi(hi_), guard(g) {
    std::size_t n = 1;
    for (int d = 0; d < 3; ++d) {
      if (d >= rank) { lo[d] = 0; hi[d] = 1; alo[d] = 0; ahi[d] = 1; continue; }
      alo[d] = lo[d] - r.range(0, 3); ahi[d] = hi[d] + r.range(0, 3); n *= std::size_t(ahi[d] - alo[d]);
    }
    buf.assign(n + 32, g);
  }
  std::ptrdiff_t stride(int d) const { return d == 0 ? 1 : d == 1 ? ahi[0] - alo[0] : (ahi[0] - alo[0]) * (ahi[1] - alo[1]); }
  std::ptrdiff_t off(md::Idx i) const { return 16 + (i[0] - alo[0]) + stride(1) * (i[1] - alo[1]) + stride(2) * (i[2] - alo[2]); }
  T& at(md::Idx i) { return buf[std::size_t(off(i))]; }
  const T& at(md::Idx i) const { return buf[std::size_t(off(i))]; }
  bool in(md::Idx i) const { for (int d = 0; d < 3; ++d) if (i[d] < lo[d] || i[d] >= hi[d]) return false; return true; }
  template <typename F> void each(F f) const { for (auto k = lo[2]; k < hi[2]; ++k) for (auto j = lo[1]; j < hi[1]; ++j) for (auto i = lo[0]; i < hi[0]; ++i) f(md::Idx{i, j, k}); }
  template <int R, typename U = T> PatchDataView<U, R, layout_stride> view() {
    std::array<std::ptrdiff_t, R> e{}, s{}, o{};
    for (int d = 0; d < R; ++d) { e[d] = hi[d] - lo[d]; s[d] = stride(d); o[d] = lo[d]; }
    layout_stride::mapping<dynamic_extents<R>> map{dynamic_extents<R>(e), s};
    return PatchDataView<U, R, layout_stride>(mdspan<U, R, layout_stride>(buf.data() + off(lo), map), o);
  }
  bool outside_unchanged(const Arr& b) const { std::vector<char> m(buf.size()); each([&](md::Idx i) { m[std::size_t(off(i))] = 1; }); for (std::size_t i = 0; i < buf.size(); ++i) if (!m[i] && buf[i] != b.buf[i]) return false; return true; }
};
md::Idx rlo(vm::Rng& r, int rank, int w) { md::Idx i{}; for (int d = 0; d < rank; ++d) i[d] = r.range(-w, w); return i; }
std::string pos(md::Idx i) { return vm::fmt("(%ld,%ld,%ld)", long(i[0]), long(i[1]), long(i[2])); }

// ---------------------------------------------------------------- TagBuffer
template <int R> void buffer(vm::Case& c) {
  vm::Rng& r = c.rng; md::Idx lo = rlo(r, R, 6), hi{};
  int maxn = R == 1 ? 40 : R == 2 ? 14 : 7;
  for (int d = 0; d < R; ++d) hi[d] = lo[d] + (r.coin(0.15) ? r.range(1, 2) : r.range(1, maxn));
  Arr<char> t(r, R, lo, hi, char(77)); double p = r.choose({0.0, 0.01, 0.05, 0.2, 0.6, 1.0}); int val = r.range(0, 2);
  int width = r.coin(0.1) ? r.range(6, 20) : r.range(0, 4);
  std::size_t seed = 0;
  t.each([&](md::Idx i) { bool m = r.coin(p); t.at(i) = !m ? 0 : val == 0 ? 1 : val == 1 ? 2 : char(r.range(1, 2)); seed = seed * 31 + std::size_t(t.at(i)); });
  // marks in the corners of the box
  if (r.coin(0.3)) { md::Idx i{}; for (int d = 0; d < 3; ++d) i[d] = r.coin() ? t.lo[d] : t.hi[d] - 1; t.at(i) = 1; }
  Arr<char> before = t; TagBuffer buf(width); c.describe(vm::fmt("rank %d extents %ld %ld %ld width %d density %g values %d", R, long(t.hi[0] - t.lo[0]), long(t.hi[1] - t.lo[1]), long(t.hi[2] - t.lo[2]), width, p, val));
  buf.TagCellsForRefinement(t.template view<R>());
  long marked = 0;
  t.each([&](md::Idx i) {
    bool want = false;
    before.each([&](md::Idx j) { if (want || !before.at(j)) return; bool n = true; for (int d = 0; d < R; ++d) n &= std::abs(i[d] - j[d]) <= width; want |= n; });
    marked += want;
    c.checkf((t.at(i) != 0) == want, want ? "missing" : "spurious", [&] { return vm::fmt("rank %d cell %s in [%s,%s) width %d is %d", R, pos(i).c_str(), pos(t.lo).c_str(), pos(t.hi).c_str(), width, t.at(i)); });
  });
  c.check(t.outside_unchanged(before), "outside_written", vm::fmt("rank %d width %d", R, width));
  c.event("cells_marked", marked); c.sig(vm::fmt("%d %d %ld %zu %s %s", R, width, marked, seed, pos(t.lo).c_str(), pos(t.hi).c_str()));
}
// -------------------------------------------------------------- TagCutCells
template <int R> void cut(vm::Case& c) {
  vm::Rng& r = c.rng; md::Idx lo = rlo(r, R, 6), hi{}, vlo{}, vhi{}; int maxn = R == 1 ? 40 : R == 2 ? 14 : 7;
  for (int d = 0; d < R; ++d) { hi[d] = lo[d] + r.range(1, maxn); vlo[d] = lo[d] + r.range(-2, 2); vhi[d] = std::max(vlo[d] + 1, hi[d] + r.range(-2, 2)); }
  Arr<char> t(r, R, lo, hi, char(77)); Arr<double> v(r, R, vlo, vhi, 0.5);
  bool overlap = true; for (int d = 0; d < R; ++d) overlap &= std::max(lo[d], vlo[d]) < std::min(hi[d], vhi[d]);
  if (!overlap) return;
  t.each([&](md::Idx i) { t.at(i) = char(r.coin(0.1) ? r.range(1, 2) : 0); });
  long ncut = 0;
  v.each([&](md::Idx i) { v.at(i) = r.choose({0.0, 0.0, 1.0, 1.0, r.u01(), 1e-300, 5e-324, std::nextafter(1.0, 0.0), 1e-16, -0.0}); });
  Arr<char> before = t; TagCutCells tag; tag.TagCellsForRefinement(t.template view<R>(), v.template view<R, const double>());
  c.describe(vm::fmt("rank %d tags [%s,%s) volumes [%s,%s)", R, pos(t.lo).c_str(), pos(t.hi).c_str(), pos(v.lo).c_str(), pos(v.hi).c_str()));
  t.each([&](md::Idx i) {
    bool is_cut = v.in(i) && v.at(i) > 0.0 && v.at(i) < 1.0, want = before.at(i) || is_cut; ncut += is_cut;
    c.checkf((t.at(i) != 0) == want, want ? (is_cut ? "missing" : "cleared") : "spurious", [&] { return vm::fmt("rank %d cell %s volume %.17g was %d is %d", R, pos(i).c_str(), v.in(i) ? v.at(i) : -1.0, before.at(i), t.at(i)); });
  });
  c.check(t.outside_unchanged(before), "outside_written", "tag array");
  c.event("cut_cells", ncut); c.sig(vm::fmt("%d %ld %s %s %s %s", R, ncut, pos(t.lo).c_str(), pos(t.hi).c_str(), pos(v.lo).c_str(), pos(v.hi).c_str()));
}
// --------------------------------------------------------- GradientDetector
struct Cond { int comp; double tol; };
double level(vm::Rng& r, int kind, double base) {
  switch (kind) {
  case 0: return base;                                        // mostly uniform
  case 1: return double(r.range(-4, 4));                      // exact ties, zeros and sign changes
  case 2: return base * (1.0 + 0.1 * (r.u01() - 0.5));        // gentle
  case 3: return base * std::pow(10.0, r.uniform(-3, 3));     // wild
  default: return r.coin(0.9) ? base : base * 2.0;            // isolated jumps
  }
}
// the relative change of two neighbours; zero if both vanish
double change(double a, double b) { double s = std::abs(a) + std::abs(b); return s == 0.0 ? 0.0 : std::abs(a - b) / s; }
int verdict(double x, double tol) { if (x == tol) return 0; if (std::abs(x - tol) <= 1e-14 * (1 + tol)) return -1; return x > tol; } // -1: not judged
template <typename E> struct Geo { md::Field f; Geo(vm::Rng& r, const E& e, int ncomp, md::Idx lo, md::Idx hi) : f(E::Rank(), ncomp, lo, hi, r.range(0, 2), r.range(0, 2), r.range(0, 5)) {} };

// det(tags view, states view): runs the code under test
template <int TR, typename E, typename F>
void gradient(vm::Case& c, E& eqn, int ncomp, const std::vector<Cond>& conds, bool array, const char* what, F det, bool with_volumes = false) {
  constexpr int R = E::Rank(); vm::Rng& r = c.rng; int maxn = R == 1 ? 60 : R == 2 ? 20 : 10;
  md::Idx lo{}, hi{}, slo{}, shi{};
  bool partial = r.coin(0.3);
  for (int d = 0; d < TR; ++d) { lo[d] = d < R ? r.range(-8, 8) : r.range(-1, 0); hi[d] = d < R ? lo[d] + r.range(array ? 2 : 1, maxn) : r.range(1, 2); }
  for (int d = 0; d < R; ++d) {
    int g0 = partial ? r.range(-1, 2) : r.range(1, 3), g1 = partial ? r.range(-1, 2) : r.range(1, 3);
    slo[d] = lo[d] - g0; shi[d] = std::max(hi[d] + g1, slo[d] + 3);
    if (!(std::min(hi[d], shi[d] - 1) > std::max(lo[d], slo[d] + 1))) return;
  }
  Arr<char> t(r, TR, lo, hi, char(77)); md::Field f(R, ncomp, slo, shi, r.range(0, 2), r.range(0, 2), r.range(0, 5));
  int kind = r.range(0, 4); std::vector<double> base(ncomp + 0UL); for (auto& b : base) b = r.logu(0.01, 100) * (r.coin(0.2) ? -1 : 1);
  f.each([&](md::Idx i) { for (int k = 0; k < ncomp; ++k) f.at(k, i) = level(r, kind, base[k]); });
  if (kind == 0) for (int n = r.range(0, 3); n > 0; --n) { md::Idx i{}; for (int d = 0; d < R; ++d) i[d] = r.range(int(f.lo[d]), int(f.hi[d]) - 1); f.at(r.range(0, ncomp - 1), i) *= 3.0; }
  t.each([&](md::Idx i) { t.at(i) = char(r.coin(0.05) ? r.range(1, 2) : 0); });
  Arr<double> vol(r, R, slo, shi, 1.0); if (with_volumes) { double p = r.choose({0.0, 0.05, 0.3}); vol.each([&](md::Idx i) { vol.at(i) = r.coin(p) ? 0.0 : r.coin(p) ? r.uniform(1e-6, 1) : 1.0; }); }
  Arr<char> before = t; std::string id = vm::fmt("%s tag rank %d data %d tags [%s,%s) states [%s,%s) conditions %zu", what, TR, kind, pos(t.lo).c_str(), pos(t.hi).c_str(), pos(f.lo).c_str(), pos(f.hi).c_str(), conds.size());
  c.describe(id);
  auto states = md::make_view<const Complete<E>>(eqn, f);
  det(t.template view<TR>(), states, vol);
  long marked = 0, judged = 0;
  t.each([&](md::Idx i) {
    // cells of the tag box outside of the plane of the equation are never selected
    bool plane = true; for (int d = R; d < TR; ++d) plane &= i[d] == 0;
    md::Idx m{}; for (int d = 0; d < R; ++d) m[d] = i[d];
    bool must = before.at(i) != 0, may = must;
    auto inside = [&](md::Idx j) { for (int d = 0; d < R; ++d) if (j[d] < f.lo[d] || j[d] >= f.hi[d]) return false; return true; };
    if (plane && inside(m)) for (int d = 0; d < R; ++d) {
      md::Idx a = m, b = m; --a[d]; ++b[d];
      if (!inside(a) || !inside(b)) continue; // needs both neighbours
      if (with_volumes && vol.at(m) == 0.0) continue;
      bool oa = !with_volumes || vol.at(a) > 0.0, ob = !with_volumes || vol.at(b) > 0.0;
      for (auto& k : conds) for (auto [n, open] : {std::pair{a, oa}, std::pair{b, ob}}) {
        if (!open) continue;
        int v = verdict(change(f.at(k.comp, m), f.at(k.comp, n)), k.tol);
        may |= v != 0; if (v == 1 && oa && ob) must = true;
      }
    }
    marked += must; judged += must == may;
    bool is = t.at(i) != 0;
    c.checkf(!must || is, before.at(i) ? "cleared" : "missing", [&] { return id + vm::fmt(" cell %s", pos(i).c_str()); });
    c.checkf(may || !is, "spurious", [&] { return id + vm::fmt(" cell %s", pos(i).c_str()); });
  });
  c.check(t.outside_unchanged(before), "outside_written", id); c.check(f.guards_intact(), "states_written", id);
  c.event("cells_marked", marked); c.event("cells_judged", judged); c.event(what);
  c.sig(vm::fmt("%s %d %d %ld %zu %s %s", what, TR, kind, marked, conds.size(), pos(t.lo).c_str(), pos(t.hi).c_str()));
}
double tolerance(vm::Rng& r) { return r.choose({0.0, 0.5, 1.0 / 3.0, 0.2, 1e-3, 0.05, 1.0, 0.25}); }
template <int R, int TR> void scalar_gas(vm::Case& c) {
  PerfectGas<R> eqn; using Q = Complete<PerfectGas<R>>; int nc = R + 4; // density momentum energy pressure sound
  double t0 = tolerance(c.rng), t1 = tolerance(c.rng), t2 = tolerance(c.rng);
  int p = R + 2, m = c.rng.range(1, R);
  auto mom = [m](const Q& q) { return q.momentum[m - 1]; };
  switch (c.rng.range(0, 3)) {
  case 0: { GradientDetector g(eqn, std::pair{&Q::density, t0}); gradient<TR>(c, eqn, nc, {{0, t0}}, false, "scalar-1", [&](auto tags, auto st, auto&) { g.TagCellsForRefinement(tags, st); }); break; }
  case 1: { GradientDetector g(eqn, std::pair{&Q::density, t0}, std::pair{&Q::pressure, t1}); gradient<TR>(c, eqn, nc, {{0, t0}, {p, t1}}, false, "scalar-2", [&](auto tags, auto st, auto&) { g.TagCellsForRefinement(tags, st); }); break; }
  case 2: { GradientDetector g(eqn, std::pair{&Q::energy, t0}, std::pair{mom, t1}, std::pair{&Q::pressure, t2}); gradient<TR>(c, eqn, nc, {{R + 1, t0}, {m, t1}, {p, t2}}, false, "scalar-3", [&](auto tags, auto st, auto&) { g.TagCellsForRefinement(tags, st); }); break; }
  default:
    if constexpr (TR == R) {
      GradientDetector g(eqn, std::pair{&Q::density, t0}, std::pair{mom, t1});
      gradient<TR>(c, eqn, nc, {{0, t0}, {m, t1}}, false, "volumes", [&](auto tags, auto st, auto& vol) { g.TagCellsForRefinement(tags, st, vol.template view<R, const double>()); }, true);
    } else {
      GradientDetector g(eqn, std::pair{mom, t1}); gradient<TR>(c, eqn, nc, {{m, t1}}, false, "scalar-lambda", [&](auto tags, auto st, auto&) { g.TagCellsForRefinement(tags, st); });
    }
  }
}
template <int R> void array_gas(vm::Case& c) {
  PerfectGas<R> eqn; int nc = R + 4, p = R + 2; double t0 = tolerance(c.rng), t1 = tolerance(c.rng);
  auto rho = [](const auto& q) { return q.density; }; auto pre = [](const auto& q) { return q.pressure; };
  if (c.rng.coin()) { GradientDetector g(eqn, std::pair{rho, t0}); static_assert(decltype(g)::is_array_based); gradient<R>(c, eqn, nc, {{0, t0}}, true, "array-1", [&](auto tags, auto st, auto&) { g.TagCellsForRefinement(tags, st); }); }
  else { GradientDetector g(eqn, std::pair{rho, t0}, std::pair{pre, t1}); gradient<R>(c, eqn, nc, {{0, t0}, {p, t1}}, true, "array-2", [&](auto tags, auto st, auto&) { g.TagCellsForRefinement(tags, st); }); }
}
}
ORACLE("tagging.buffer", 20000, 400000) { switch (c.rng.range(1, 3)) { case 1: return buffer<1>(c); case 2: return buffer<2>(c); default: return buffer<3>(c); } }
ORACLE("tagging.cut_cells", 15000, 300000) { switch (c.rng.range(1, 3)) { case 1: return cut<1>(c); case 2: return cut<2>(c); default: return cut<3>(c); } }
ORACLE("tagging.gradient", 20000, 400000) {
  switch (c.rng.range(0, 5)) {
  case 0: return scalar_gas<1, 1>(c); case 1: return scalar_gas<2, 2>(c); case 2: return scalar_gas<3, 3>(c);
  case 3: return scalar_gas<1, 2>(c); case 4: return scalar_gas<1, 3>(c); default: return scalar_gas<2, 3>(c);
  }
}
ORACLE("tagging.gradient_array", 20000, 400000) { switch (c.rng.range(1, 3)) { case 1: return array_gas<1>(c); case 2: return array_gas<2>(c); default: return array_gas<3>(c); } }
