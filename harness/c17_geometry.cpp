// C17: geometries against independent point-in-shape tests and distances.
#include "vm.hpp"
#include "fub/geometry/Cone.hpp"
#include "fub/geometry/ExpandTube.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/RotateAroundPoint.hpp"
#include "fub/geometry/RotateAxis.hpp"
#include "fub/geometry/Union.hpp"
#include <algorithm>
#include <fstream>
#include <memory>
#include <unistd.h>
using namespace fub;
using ld = long double;
namespace {
using Pts = std::vector<std::array<double, 2>>;
Polygon polygon(const Pts& p) { Polygon::Vector x, y; for (auto& q : p) { x.push_back(q[0]); y.push_back(q[1]); } return Polygon(x, y); }
ld seg(const std::array<double, 2>& a, const std::array<double, 2>& b, ld x, ld y) {
  ld dx = (ld)b[0] - a[0], dy = (ld)b[1] - a[1], l2 = dx * dx + dy * dy, t = l2 > 0 ? ((x - a[0]) * dx + (y - a[1]) * dy) / l2 : 0; t = std::min<ld>(1, std::max<ld>(0, t));
  return std::hypot(x - (a[0] + t * dx), y - (a[1] + t * dy));
}
ld poly_dist(const Pts& p, ld x, ld y) { ld d = 1e300L; for (size_t i = 0; i + 1 < p.size(); ++i) d = std::min(d, seg(p[i], p[i + 1], x, y)); return d; }
// winding by angles, independent of ray crossings
bool poly_inside_evenodd(const Pts& p, ld x, ld y) {
  // vertical ray upwards at a horizontally perturbed abscissa cannot be used for robustness; count with exact side tests
  bool in = false; for (size_t i = 0; i + 1 < p.size(); ++i) { ld ax = p[i][0], ay = p[i][1], bx = p[i + 1][0], by = p[i + 1][1]; if ((ax > x) != (bx > x)) { ld s = (bx - ax) * (y - ay) - (x - ax) * (by - ay); if ((s > 0) == (bx > ax)) in = !in; } }
  return in;
}
Pts random_closed(vm::Case& c) {
  int kind = c.rng.range(0, 3), n = c.rng.range(3, c.rng.coin() ? 8 : 40); Pts p;
  if (kind == 0) for (int i = 0; i < n; ++i) { double a = 6.283185307179586 * i / n, r = c.rng.uniform(0.3, 1.5); p.push_back({r * std::cos(a), r * std::sin(a)}); } // star shaped
  else if (kind == 1) for (int i = 0; i < n; ++i) p.push_back({(double)c.rng.range(-4, 4), (double)c.rng.range(-4, 4)}); // lattice, self intersecting, degenerate edges
  else if (kind == 2) { double x0 = c.rng.uniform(-2, 0), x1 = c.rng.uniform(0.1, 2), y0 = c.rng.uniform(-2, 0), y1 = c.rng.uniform(0.1, 2); p = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; }
  else for (int i = 0; i < n; ++i) p.push_back({c.rng.uniform(-2, 2), c.rng.uniform(-2, 2)});
  if (c.rng.coin()) std::reverse(p.begin(), p.end());
  p.push_back(p.front()); return p;
}
std::array<double, 2> random_point(vm::Case& c, const Pts& p) {
  switch (c.rng.range(0, 3)) { case 0: return {(double)c.rng.range(-5, 5), (double)c.rng.range(-5, 5)}; // ordinates of lattice vertices
  case 1: { auto& q = c.rng.pick(p); return {c.rng.uniform(-3, 3), q[1]}; } case 2: { auto& q = c.rng.pick(p); double e = c.rng.logu(1e-6, 1); return {q[0] + e * c.rng.normal(), q[1] + e * c.rng.normal()}; } default: return {c.rng.uniform(-3, 3), c.rng.uniform(-3, 3)}; }
}
}
ORACLE("geometry.polygon", 6000, 120000) {
  Pts p = random_closed(c); Polygon g = polygon(p); Polygon copy = g; int n = 12, used = 0;
  for (int k = 0; k < n; ++k) {
    auto q = random_point(c, p); double v = g.ComputeDistanceTo(q[0], q[1]); ld d = poly_dist(p, q[0], q[1]);
    std::string id = vm::fmt("%zu vertices, point %.17g %.17g", p.size(), q[0], q[1]);
    c.close(std::abs(v), (double)d, 1e-12 * (1 + (double)d), "distance", id);
    c.check(v == g.ComputeDistanceTo(q) && v == copy.ComputeDistanceTo(q[0], q[1]), "copy_and_repeat", id);
    if (d > 1e-9) { bool in = poly_inside_evenodd(p, q[0], q[1]); c.check((v > 0) == in, "sign", id + vm::fmt(" value %.17g inside %d", v, (int)in)); ++used; c.event(in ? "inside" : "outside"); }
    c.sig(id);
  }
  c.describe(vm::fmt("%zu vertices %d points", p.size(), used)); c.event("points", n);
}
ORACLE("geometry.cone", 3000, 60000) {
  std::array<double, 3> x0{c.rng.uniform(-2, 2), c.rng.uniform(-2, 2), c.rng.uniform(-2, 2)}; double R = c.rng.logu(0.05, 5), h = c.rng.logu(0.05, 5); bool in = c.rng.coin();
  ConeIF g(x0, R, h, in), copy(g);
  for (int k = 0; k < 12; ++k) {
    double l, r; switch (c.rng.range(0, 5)) { case 0: l = c.rng.uniform(-h, 2 * h); r = c.rng.uniform(0, 2 * R); break; case 1: l = c.rng.uniform(0, h); r = (1 - l / h) * R * c.rng.uniform(0.9, 1.1); break; case 2: l = 0.01 * c.rng.normal(); r = R * c.rng.uniform(0, 1.5); break; case 3: l = c.rng.uniform(0, 1.5) * h; r = 0; break; case 4: l = h * c.rng.uniform(0.99, 1.2); r = c.rng.uniform(0, R); break; default: l = c.rng.uniform(-h, 0); r = R * c.rng.uniform(1, 3); }
    double a = c.rng.uniform(0, 6.2831853); std::array<double, 3> p{x0[0] + l, x0[1] + r * std::cos(a), x0[2] + r * std::sin(a)}; l = p[0] - x0[0]; r = std::hypot(p[1] - x0[1], p[2] - x0[2]);
    bool inside = l > 0 && l < h && r < (1 - l / h) * R;
    ld face = seg({0, R}, {h, 0}, l, r), base = r <= R ? std::abs((ld)l) : std::hypot((ld)l, (ld)r - R), d = std::min(face, base);
    double v = g.ComputeDistanceTo(p); std::string id = vm::fmt("R=%g h=%g in=%d l=%.17g r=%.17g", R, h, (int)in, l, r);
    c.close(std::abs(v), (double)d, 1e-11 * (1 + (double)d + R + h), "distance", id);
    if (d > 1e-9) c.check((v < 0) == (inside == in), "sign", id); c.check(copy.ComputeDistanceTo(p) == v, "copy", id);
    c.event(inside ? "inside" : "outside"); c.sig(vm::fmt("%d%d%d%d", l > 0, l > h, r > R, (int)inside) + id); c.describe(id);
  }
}
ORACLE("geometry.halfspace", 1000, 20000) {
  Eigen::Vector3d n(c.rng.normal(), c.rng.normal(), c.rng.normal()); if (c.rng.coin(0.3)) n = Eigen::Vector3d::Unit(c.rng.range(0, 2)) * c.rng.sign() * c.rng.logu(1e-3, 1e3); double off = c.rng.uniform(-2, 2); Halfspace g(n, off), copy(g);
  for (int k = 0; k < 8; ++k) { Eigen::Vector3d x(c.rng.uniform(-3, 3), c.rng.uniform(-3, 3), c.rng.uniform(-3, 3)); ld nn = std::sqrt((ld)n[0] * n[0] + (ld)n[1] * n[1] + (ld)n[2] * n[2]); ld want = ((ld)n[0] * x[0] + (ld)n[1] * x[1] + (ld)n[2] * x[2]) / nn - off; double v = g(x); c.close(v, (double)want, 1e-13 * 10, "signed_distance"); c.check(g(x[0], x[1], x[2]) == v && copy(x) == v, "copy"); c.event("points"); }
  c.sig(vm::fmt("%g %g", n[0], off)); c.describe(vm::fmt("normal %g %g %g offset %g", n[0], n[1], n[2], off));
}
ORACLE("geometry.transforms", 2500, 50000) {
  Pts p = random_closed(c); Polygon g = polygon(p); double ang = c.rng.uniform(-7, 7); std::array<double, 2> o{c.rng.uniform(-2, 2), c.rng.uniform(-2, 2)};
  RotateAroundPoint<Polygon> rot(g, ang, o); Invert<Polygon> inv(g); RotateAxis<Polygon> axis(g); Invert<RotateAxis<Polygon>> iaxis(axis); Invert<RotateAroundPoint<Polygon>> irot(rot); auto rcopy = rot;
  // the rotated shape is the polygon with rotated vertices
  Pts rp; for (auto& q : p) { ld x = q[0] - (ld)o[0], y = q[1] - (ld)o[1]; rp.push_back({(double)(o[0] + std::cos((ld)ang) * x - std::sin((ld)ang) * y), (double)(o[1] + std::sin((ld)ang) * x + std::cos((ld)ang) * y)}); }
  for (int k = 0; k < 8; ++k) {
    auto q = random_point(c, rp); ld d = poly_dist(rp, q[0], q[1]); double v = rot.ComputeDistanceTo(q); std::string id = vm::fmt("angle %.17g about %g %g point %.17g %.17g", ang, o[0], o[1], q[0], q[1]);
    c.close(std::abs(v), (double)d, 1e-11, "rotated_distance", id); if (d > 1e-8) c.check((v > 0) == poly_inside_evenodd(rp, q[0], q[1]), "rotated_sign", id);
    c.check(rcopy.ComputeDistanceTo(q) == v && irot.ComputeDistanceTo(q) == -v, "invert_rotated", id);
    c.check(inv.ComputeDistanceTo(q) == -g.ComputeDistanceTo(q), "invert", id);
    std::array<double, 3> z{c.rng.uniform(-3, 3), c.rng.uniform(-3, 3), c.rng.uniform(-3, 3)}; double rr = std::sqrt(z[1] * z[1] + z[2] * z[2]); double w = axis.ComputeDistanceTo(z); ld dz = poly_dist(p, z[0], rr);
    c.close(std::abs(w), (double)dz, 1e-11, "axis_distance", id); if (dz > 1e-8) c.check((w > 0) == poly_inside_evenodd(p, z[0], rr), "axis_sign", id);
    c.check(iaxis.ComputeDistanceTo(z) == -w, "invert_axis", id); c.check(inv.ComputeDistanceTo(z) == -g.ComputeDistanceTo(z[0], z[1]), "invert_projected", id); c.event("points", 4); c.sig(id); c.describe(id);
  }
}
ORACLE("geometry.union", 2500, 50000) {
  int n = c.rng.range(0, 5); std::vector<Pts> ps; std::vector<PolymorphicGeometry<2>> gs; std::vector<bool> inverted;
  for (int i = 0; i < n; ++i) { ps.push_back(random_closed(c)); inverted.push_back(c.rng.coin(0.3)); if (inverted.back()) gs.emplace_back(Invert<Polygon>(polygon(ps.back()))); else gs.emplace_back(polygon(ps.back())); }
  PolymorphicUnion<2> u(gs); PolymorphicUnion<2> ucopy(u); PolymorphicGeometry<2> any(u); PolymorphicGeometry<2> any2(any); auto clone = any.Clone(); auto uclone = u.Clone(); gs.clear();
  Invert<PolymorphicUnion<2>> iu(u);
  for (int k = 0; k < 8; ++k) {
    Pts all_; for (auto& p : ps) all_.insert(all_.end(), p.begin(), p.end()); if (all_.empty()) all_.push_back({0, 0}); auto q = random_point(c, all_);
    bool in = false, near = false; ld best = -1e300L; for (int i = 0; i < n; ++i) { ld d = poly_dist(ps[i], q[0], q[1]); bool a = poly_inside_evenodd(ps[i], q[0], q[1]) != inverted[i]; in = in || a; near = near || d < 1e-9; best = std::max(best, a ? d : -d); }
    double v = u.ComputeDistanceTo(q); std::string id = vm::fmt("%d shapes point %.17g %.17g", n, q[0], q[1]);
    if (!near) { c.check((v > 0) == in, "union_sign", id); if (n) c.close(v, (double)best, 1e-11, "union_value", id); }
    c.check(v == ucopy.ComputeDistanceTo(q) && v == any.ComputeDistanceTo(q) && v == any2.ComputeDistanceTo(q) && v == clone->ComputeDistanceTo(q) && v == uclone->ComputeDistanceTo(q) && v == any.Base().ComputeDistanceTo(q), "copies", id);
    c.check(iu.ComputeDistanceTo(q) == -v, "invert_union", id); c.event(in ? "inside" : "outside"); c.sig(id); c.describe(id);
  }
  { std::vector<PolymorphicGeometry<3>> g3; std::vector<ConeIF> cs; for (int i = 0, m = c.rng.range(1, 3); i < m; ++i) { cs.emplace_back(std::array<double, 3>{c.rng.normal(), c.rng.normal(), c.rng.normal()}, c.rng.logu(0.1, 3), c.rng.logu(0.1, 3), false); g3.emplace_back(cs.back()); }
    PolymorphicUnion<3> u3(g3); std::array<double, 3> z{c.rng.normal(), c.rng.normal(), c.rng.normal()}; double m = -1e300; for (auto& q : cs) m = std::max(m, q.ComputeDistanceTo(z)); c.check(u3.ComputeDistanceTo(z) == m, "union3"); }
}
ORACLE("geometry.tube", 2000, 40000) {
  // a bent tube in the plane whose first segment points upwards and whose end cap faces down (the
  // orientation the class is written for)
  int n = c.rng.range(2, 8); Eigen::Matrix<double, 3, Eigen::Dynamic> pts(3, n); double x = 0, y = 0;
  for (int i = 0; i < n; ++i) { pts.col(i) = Eigen::Vector3d(x, y, 0.0); double a = 1.5707963 - 3.1415926 * (i + 0.5) / n + 0.2 * c.rng.normal(); double l = c.rng.uniform(0.5, 2); if (i == 0) a = 1.5707963267948966; x += l * std::cos(a); y += l * std::sin(a); }
  double R = c.rng.uniform(0.05, 0.4); ExpandTube g(pts, R), copy(g);
  for (int k = 0; k < 10; ++k) {
    int i = c.rng.range(0, n - 2); Eigen::Vector3d p; if (c.rng.coin(0.7)) { double t = c.rng.uniform(-0.3, 1.3); p = pts.col(i) + t * (pts.col(i + 1) - pts.col(i)) + R * c.rng.uniform(0, 1.3) * Eigen::Vector3d(c.rng.normal(), c.rng.normal(), c.rng.normal()).normalized(); } else p = Eigen::Vector3d(c.rng.uniform(-2, 6), c.rng.uniform(-2, 6), c.rng.normal());
    // inside <=> inside one cylinder between its two mitre planes
    bool in = false; ld margin = 1e300L;
    for (int s = 0; s + 1 < n; ++s) {
      Eigen::Vector3d h = (pts.col(s + 1) - pts.col(s)).normalized(), hp = s ? Eigen::Vector3d((pts.col(s) - pts.col(s - 1)).normalized()) : Eigen::Vector3d(0, 1, 0), hn = s + 2 < n ? Eigen::Vector3d((pts.col(s + 2) - pts.col(s + 1)).normalized()) : Eigen::Vector3d(0, -1, 0);
      Eigen::Vector3d lo = s ? Eigen::Vector3d((hp + h).normalized()) : hp, hi = s + 2 < n ? Eigen::Vector3d((h + hn).normalized()) : hn;
      double a = lo.dot(p - Eigen::Vector3d(pts.col(s))), b = hi.dot(Eigen::Vector3d(pts.col(s + 1)) - p), r = R - h.cross(p - Eigen::Vector3d(pts.col(s))).norm();
      in = in || (a > 0 && b > 0 && r > 0); margin = std::min<ld>({margin, std::abs(a), std::abs(b), std::abs(r)});
    }
    double v = g(p[0], p[1], p[2]); std::string id = vm::fmt("n=%d R=%g p=%.17g %.17g %.17g", n, R, p[0], p[1], p[2]);
    if (margin > 1e-9) { c.check((v > 0) == in, "sign", id + vm::fmt(" value %g inside %d", v, (int)in)); c.event(in ? "inside" : "outside"); }
    c.check(copy(p) == v && g(p) == v, "copy", id); c.sig(id); c.describe(id);
  }
}
ORACLE("geometry.points_file", 200, 2000) {
  int n = c.rng.range(0, 12); bool last_nl = c.rng.coin(); std::string text; std::vector<std::array<double, 2>> want; std::string kinds;
  for (int i = 0; i < n; ++i) { int kind = c.rng.range(0, 9); std::array<double, 2> q{c.rng.normal() * 10, c.rng.normal()}; if (kind == 0) { text += ""; kinds += '0'; } else if (kind == 1) { text += "# comment"; kinds += '#'; } else if (kind == 2) { text += vm::fmt("%.17g", q[0]); kinds += '1'; } else { text += vm::fmt(kind == 3 ? "%.17g\t%.17g" : kind == 4 ? "  %.17g %.17g 7.5" : "%.17g %.17g", q[0], q[1]); want.push_back(q); kinds += 'p'; } if (i + 1 < n || last_nl) text += "\n"; }
  const char* dir = std::getenv("VM_SCRATCH"); std::string f = std::string(dir ? dir : "/tmp") + "/points-" + std::to_string(getpid()) + ".txt"; { std::ofstream o(f); o << text; }
  auto p = ReadPointsFromFile(f); std::remove(f.c_str()); std::string id = kinds + (last_nl ? "$" : "");
  c.require(p.cols() == (long)want.size() && p.rows() == 3, "point_count", id + vm::fmt(" got %ld want %zu", (long)p.cols(), want.size()));
  for (size_t i = 0; i < want.size(); ++i) c.check(p(0, i) == want[i][0] && p(1, i) == want[i][1] && p(2, i) == 0.0, "point_value", id);
  bool threw = false; try { ReadPointsFromFile(f + ".missing"); } catch (const std::exception&) { threw = true; } c.check(threw, "missing_file");
  c.event("points", want.size()); c.sig(id); c.describe(id);
}
