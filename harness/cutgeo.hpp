// Geometry for the cut-cell harnesses: planar walls, channels and random admissible fractions.
#pragma once
#include "ad_gas.hpp"
#include "ad_mix.hpp"
#include "riemann.hpp"
#include "fub/AMReX/FillCutCellData.hpp"
#include "fub/CutCellData.hpp"
#include "fub/cutcell_method/KbnStabilisation.hpp"
namespace fub {
// (declared in MyStabilisation.hpp, whose other contents are not needed here)
void MyStab_ComputeStableFluxComponents(const PatchDataView<double, 2, layout_stride>&, const PatchDataView<double, 2, layout_stride>&, const PatchDataView<double, 2, layout_stride>&, const PatchDataView<const double, 2, layout_stride>&, const PatchDataView<const double, 2, layout_stride>&, const CutCellData<2>&, Duration, double, Direction);
void MyStab_ComputeStableFluxComponents(const PatchDataView<double, 3, layout_stride>&, const PatchDataView<double, 3, layout_stride>&, const PatchDataView<double, 3, layout_stride>&, const PatchDataView<const double, 3, layout_stride>&, const PatchDataView<const double, 3, layout_stride>&, const CutCellData<3>&, Duration, double, Direction);
}
using namespace fub;
namespace {
using md::Idx;
struct Box3 {
  Idx lo{}, hi{1, 1, 1};
  Box3 grow(int rank, int l, int u) const { Box3 b = *this; for (int d = 0; d < rank; ++d) { b.lo[d] -= l; b.hi[d] += u; } return b; }
  bool in(Idx i) const { for (int d = 0; d < 3; ++d) if (i[d] < lo[d] || i[d] >= hi[d]) return false; return true; }
  template <typename F> void each(F f) const { for (auto k = lo[2]; k < hi[2]; ++k) for (auto j = lo[1]; j < hi[1]; ++j) for (auto i = lo[0]; i < hi[0]; ++i) f(Idx{i, j, k}); }
};
Idx sh(Idx i, int d, int s) { i[d] += s; return i; }
// Contiguous array with n components on a box and guard values around it
struct Arr {
  Box3 b; int rank = 2, n = 1; std::vector<double> v;
  Arr() = default;
  Arr(int rank_, Box3 b_, int n_, double x) : b(b_), rank(rank_), n(n_) { v.assign(std::size_t(size()) * n + 32, md::Field::guard()); for (std::size_t k = 16; k + 16 < v.size(); ++k) v[k] = x; }
  std::ptrdiff_t size() const { return (b.hi[0] - b.lo[0]) * (b.hi[1] - b.lo[1]) * (b.hi[2] - b.lo[2]); }
  double& operator()(Idx i, int c = 0) { return v[std::size_t(16 + c * size() + (i[0] - b.lo[0]) + (b.hi[0] - b.lo[0]) * ((i[1] - b.lo[1]) + (b.hi[1] - b.lo[1]) * (i[2] - b.lo[2])))]; }
  double operator()(Idx i, int c = 0) const { return (*const_cast<Arr*>(this))(i, c); }
  template <int R, typename T> PatchDataView<T, R> view() {
    std::array<std::ptrdiff_t, R> e{}, o{}; for (int d = 0; d < R; ++d) { bool comp = d == rank; e[d] = comp ? n : b.hi[d] - b.lo[d]; o[d] = comp ? 0 : b.lo[d]; }
    return PatchDataView<T, R>(mdspan<T, R>(v.data() + 16, e), o);
  }
  bool guards() const { for (std::size_t k = 0; k < 16; ++k) if (!md::Field::is_guard(v[k]) || !md::Field::is_guard(v[v.size() - 1 - k])) return false; return true; }
};
template <int R> StridedDataView<double, R> strided(Arr& a) { auto v = a.view<R, double>(); IndexBox<R> b = v.Box(); return v.Subview(b); }

template <int R> struct Geo {
  Box3 box; // faces and cells with data
  Arr vol, ctr, nrm, bctr; std::array<Arr, 3> face, us, sl, sr, ds, usr, slr, srr, dsr;
  CutCellData<R> data;
  Box3 fbox; // faces whose fractions are computed
  explicit Geo(Box3 b) : box(b) {
    vol = Arr(R, b, 1, 1); ctr = Arr(R, b, R, 0); nrm = Arr(R, b, R, 0); bctr = Arr(R, b, R, 0);
    for (int d = 0; d < R; ++d) face[d] = Arr(R, b, 1, 1);
    fbox = b.grow(R, -1, -1);
    for (int d = 0; d < R; ++d) for (auto a : {&us, &sl, &sr, &ds, &usr, &slr, &srr, &dsr}) (*a)[d] = Arr(R, fbox, 1, 7e77);
  }
  double beta(int d, Idx f) const { return face[d](f); }
  // no open face next to a covered cell
  void close_faces() { for (int d = 0; d < R; ++d) box.each([&](Idx i) { Idx l = sh(i, d, -1); if (vol(i) == 0 || (box.in(l) && vol(l) == 0)) face[d](i) = 0; }); }
  bool cut(Idx i) const { if (vol(i) <= 0) return false; if (vol(i) < 1) return true; for (int d = 0; d < R; ++d) if (face[d](i) < 1 || face[d](sh(i, d, 1)) < 1) return true; return false; }
  void finish() {
    for (int d = 0; d < R; ++d)
      amrex::cutcell::FillCutCellData(strided<R>(us[d]), strided<R>(sl[d]), strided<R>(sr[d]), strided<R>(ds[d]), strided<R>(usr[d]), strided<R>(slr[d]), strided<R>(srr[d]), strided<R>(dsr[d]), PatchDataView<const double, R>(face[d].view<R, const double>()), Direction(d));
    data.volume_fractions = vol.view<R, const double>(); data.volume_centeroid = ctr.view<R + 1, const double>(); data.boundary_normals = nrm.view<R + 1, const double>(); data.boundary_centeroids = bctr.view<R + 1, const double>();
    for (int d = 0; d < R; ++d) {
      data.face_fractions[d] = face[d].view<R, const double>();
      data.unshielded_fractions[d] = us[d].view<R, const double>(); data.shielded_left_fractions[d] = sl[d].view<R, const double>(); data.shielded_right_fractions[d] = sr[d].view<R, const double>(); data.doubly_shielded_fractions[d] = ds[d].view<R, const double>();
      data.unshielded_fractions_rel[d] = usr[d].view<R, const double>(); data.shielded_left_fractions_rel[d] = slr[d].view<R, const double>(); data.shielded_right_fractions_rel[d] = srr[d].view<R, const double>(); data.doubly_shielded_fractions_rel[d] = dsr[d].view<R, const double>();
    }
  }
};
using P2 = std::array<double, 2>;
// part of a polygon with n.x >= c
std::vector<P2> clip(const std::vector<P2>& q, P2 n, double c) {
  std::vector<P2> o; std::size_t m = q.size();
  for (std::size_t k = 0; k < m; ++k) {
    P2 a = q[k], b = q[(k + 1) % m]; double fa = n[0] * a[0] + n[1] * a[1] - c, fb = n[0] * b[0] + n[1] * b[1] - c;
    if (fa >= 0) o.push_back(a);
    if ((fa >= 0) != (fb >= 0)) { double t = fa / (fa - fb); o.push_back({a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])}); }
  }
  return o;
}
double area(const std::vector<P2>& q, P2& ctr) {
  double A = 0; P2 s{}; if (q.size() < 3) return 0; P2 o = q[0];
  for (std::size_t k = 0; k < q.size(); ++k) { P2 a{q[k][0] - o[0], q[k][1] - o[1]}, b{q[(k + 1) % q.size()][0] - o[0], q[(k + 1) % q.size()][1] - o[1]}; double w = a[0] * b[1] - a[1] * b[0]; A += w; s[0] += w * (a[0] + b[0]); s[1] += w * (a[1] + b[1]); }
  if (A <= 0) return 0; ctr = {o[0] + s[0] / (3 * A), o[1] + s[1] / (3 * A)}; return A / 2;
}
// fluid: n.x >= c1 and, for channels, n.x <= c2 (index coordinates of the axes a, b)
template <int R> void planar(Geo<R>& g, int a, int b, P2 n, double c1, double c2) {
  const int e = R == 3 ? 3 - a - b : -1;
  g.box.each([&](Idx i) {
    double x = double(i[a]), y = double(i[b]);
    std::vector<P2> q{{x, y}, {x + 1, y}, {x + 1, y + 1}, {x, y + 1}}; P2 ct{x + 0.5, y + 0.5};
    q = clip(clip(q, n, c1), {-n[0], -n[1]}, -c2); double A = area(q, ct);
    if (A < 1e-9) A = 0; if (A > 1 - 1e-12) A = 1;
    g.vol(i) = A; g.ctr(i, a) = ct[0] - x - 0.5; g.ctr(i, b) = ct[1] - y - 0.5;
    auto len = [&](P2 p0, P2 p1) { // open part of a unit face
      double t0 = 0, t1 = 1;
      auto half = [&](double f0, double f1) { if (f0 <= 0 && f1 <= 0) { t1 = t0; return; } if (f0 > 0 && f1 > 0) return; double t = f0 / (f0 - f1); if (f0 > 0) t1 = std::min(t1, t); else t0 = std::max(t0, t); };
      double f0 = n[0] * p0[0] + n[1] * p0[1], f1 = n[0] * p1[0] + n[1] * p1[1];
      half(f0 - c1, f1 - c1); half(c2 - f0, c2 - f1); double l = std::max(0.0, t1 - t0); return l > 1 - 1e-12 ? 1.0 : l < 1e-12 ? 0.0 : l;
    };
    g.face[a](i) = len({x, y}, {x, y + 1}); g.face[b](i) = len({x, y}, {x + 1, y}); if (e >= 0) g.face[e](i) = A;
    // wall of the cell: the nearer of the two planes
    double f = n[0] * (x + 0.5) + n[1] * (y + 0.5); bool first = f - c1 < c2 - f; double c = first ? c1 : c2, s = first ? 1 : -1;
    P2 m{x + 0.5 + (c - f) * n[0], y + 0.5 + (c - f) * n[1]}; // foot point on the wall, then the middle of the segment within the cell
    P2 t{-n[1], n[0]}; double lo = -1e9, hi = 1e9; double org[2] = {x, y};
    for (int k = 0; k < 2; ++k) if (std::abs(t[k]) > 1e-14) { double u = (org[k] - m[k]) / t[k], v = (org[k] + 1 - m[k]) / t[k]; lo = std::max(lo, std::min(u, v)); hi = std::min(hi, std::max(u, v)); }
    double mid = hi > lo ? 0.5 * (lo + hi) : 0.0; P2 w{m[0] + mid * t[0], m[1] + mid * t[1]};
    auto cl = [](double z) { return std::max(-0.5, std::min(0.5, z)); };
    g.bctr(i, a) = cl(w[0] - x - 0.5); g.bctr(i, b) = cl(w[1] - y - 0.5);
    g.nrm(i, a) = -s * n[0]; g.nrm(i, b) = -s * n[1]; // stored normals point out of the fluid
  });
  g.close_faces();
}
template <int R> void scatter(Geo<R>& g, vm::Rng& r) { // random admissible fractions
  double pc = r.choose({0.0, 0.05, 0.2}), pf = r.choose({0.2, 0.5, 0.8});
  auto frac = [&] { return r.coin(0.1) ? r.logu(1e-8, 1) : r.u01(); };
  g.box.each([&](Idx i) {
    g.vol(i) = r.coin(pc) ? 0.0 : r.coin(pf) ? 1.0 : std::max(1e-8, frac());
    for (int d = 0; d < R; ++d) g.face[d](i) = r.coin(pf) ? 1.0 : r.coin(0.1) ? 0.0 : frac();
    double s = 0, x[3]; for (int d = 0; d < R; ++d) { x[d] = r.uniform(-1, 1); if (r.coin(0.15)) x[d] = 0; s += x[d] * x[d]; } if (s < 1e-6) { x[0] = r.coin() ? 1 : -1; for (int d = 1; d < R; ++d) x[d] = 0; s = 1; }
    for (int d = 0; d < R; ++d) { g.nrm(i, d) = x[d] / std::sqrt(s); g.bctr(i, d) = r.uniform(-0.5, 0.5); g.ctr(i, d) = r.uniform(-0.5, 0.5); }
  });
  g.close_faces();
}
template <int R> Box3 random_box(vm::Rng& r, int maxx) {
  Box3 b; for (int d = 0; d < R; ++d) { b.lo[d] = r.range(-7, 7); b.hi[d] = b.lo[d] + (d == 0 ? r.range(1, maxx) : r.range(1, R == 2 ? 7 : 4)); } return b;
}
// wall through the middle of the box
template <int R> void random_planar(Geo<R>& g, Box3 inner, vm::Rng& r, P2& n, int& a, int& b, std::string& desc) {
  a = 0; b = 1; if (R == 3) { a = r.range(0, 2); do b = r.range(0, 2); while (b == a); }
  int kind = r.range(0, 9); double phi = kind < 7 ? r.uniform(0, 2 * M_PI) : kind == 7 ? 0.5 * M_PI * r.range(0, 3) : kind == 8 ? 0.25 * M_PI * r.range(0, 7) : 0.5 * M_PI * r.range(0, 3) + r.choose({1e-3, -1e-3, 1e-8, -1e-8});
  n = {std::cos(phi), std::sin(phi)}; if (kind == 7) n = {std::round(n[0]), std::round(n[1])};
  double x = r.uniform(double(inner.lo[a]), double(inner.hi[a])), y = r.uniform(double(inner.lo[b]), double(inner.hi[b])); if (r.coin(0.25)) { x = std::round(x); y = std::round(y); } // through nodes
  double c1 = n[0] * x + n[1] * y, c2 = r.coin(0.3) ? c1 + r.uniform(2.5, 9) : 1e9;
  planar<R>(g, a, b, n, c1, c2); desc = vm::fmt("wall normal (%.17g %.17g) axes %d %d c %.17g .. %.17g", n[0], n[1], a, b, c1, c2);
}
} // namespace
