// C20: the implicit Runge-Kutta integrator against exact solutions of random
// initial-value problems (stiff, oscillating, growing, forced, forward and
// backward), its callback trace, repeated and split use, and failure reports.
#include "fub/ode_solver/OdeSolverFactory.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include "vm.hpp"
#include <Eigen/Dense>
namespace {
using Vec = Eigen::VectorXd; using Mat = Eigen::MatrixXd; using fub::RadauSolver; using fub::OdeSolver; using vm::Rng;
struct Problem { int n = 1; std::string name; std::function<void(const Vec&, double, Vec&)> f; std::function<Mat(const Vec&, double)> J; std::function<Vec(double)> y; double t0 = 0, dt = 1, growth = 1, scale = 1, noise = 0; int fam = 0; };
Mat orth(Rng& r, int n) { Mat a(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = r.uniform(-1, 1); return Eigen::HouseholderQR<Mat>(a).householderQ(); }
Vec rnd(Rng& r, int n, double a) { Vec v(n); for (int i = 0; i < n; ++i) v[i] = r.uniform(-a, a); return v; }

Problem make(Rng& r) {
  Problem p; p.fam = r.range(0, 6); p.t0 = r.coin() ? 0.0 : r.uniform(-3, 3); double mag = r.logu(0.01, 100); p.scale = mag;
  switch (p.fam) {
  case 0: { // decoupled rates in a rotated basis: stiff decay, with a smooth forced solution
    p.n = r.range(1, 12); p.dt = r.logu(1e-3, 10); int n = p.n; Mat Q = orth(r, n); Vec l(n), w(n), A = rnd(r, n, mag); for (int i = 0; i < n; ++i) { l[i] = -r.logu(0.1, r.coin() ? 10 : 1e7); w[i] = r.uniform(0.2, 3); }
    Mat L = Q * l.asDiagonal() * Q.transpose(); Vec z = rnd(r, n, mag) * (r.coin(0.3) ? 0 : 1); double t0 = p.t0; bool g0 = r.coin(0.3);
    auto g = [=](double t) { Vec v(n); for (int i = 0; i < n; ++i) v[i] = g0 ? 0.0 : A[i] * std::sin(w[i] * t); return v; }; auto dg = [=](double t) { Vec v(n); for (int i = 0; i < n; ++i) v[i] = g0 ? 0.0 : A[i] * w[i] * std::cos(w[i] * t); return v; };
    p.f = [=](const Vec& y, double t, Vec& d) { d = L * (y - g(t)) + dg(t); }; p.J = [=](const Vec&, double) { return L; };
    p.y = [=](double t) { Vec e(n); for (int i = 0; i < n; ++i) e[i] = std::exp(l[i] * (t - t0)); return Vec(Q * (e.asDiagonal() * (Q.transpose() * z)) + g(t)); };
    p.noise = 1e-14 * l.minCoeff() / l.maxCoeff() * mag; p.name = vm::fmt("forced decay n=%d rates to %.3g", n, -l.minCoeff()); break; }
  case 1: { // rotations, either direction of time
    int m = r.range(1, 4); p.n = 2 * m; p.dt = (r.coin(0.3) ? -1 : 1) * r.logu(1e-2, 10); Mat Q = orth(r, p.n); Vec w(m); for (int i = 0; i < m; ++i) w[i] = r.logu(0.1, 5); Vec z = rnd(r, p.n, mag); double t0 = p.t0; int n = p.n; Mat S = Mat::Zero(n, n); for (int i = 0; i < m; ++i) { S(2 * i, 2 * i + 1) = w[i]; S(2 * i + 1, 2 * i) = -w[i]; } Mat L = Q * S * Q.transpose();
    p.f = [=](const Vec& y, double, Vec& d) { d = L * y; }; p.J = [=](const Vec&, double) { return L; };
    p.y = [=](double t) { Mat R = Mat::Zero(n, n); for (int i = 0; i < m; ++i) { double c = std::cos(w[i] * (t - t0)), s = std::sin(w[i] * (t - t0)); R(2 * i, 2 * i) = c; R(2 * i, 2 * i + 1) = s; R(2 * i + 1, 2 * i) = -s; R(2 * i + 1, 2 * i + 1) = c; } return Vec(Q * R * z); };
    p.growth = 1 + w.maxCoeff() * std::abs(p.dt); p.name = vm::fmt("rotation n=%d w to %.3g", n, w.maxCoeff()); break; }
  case 2: { // logistic growth
    p.n = r.range(1, 5); int n = p.n; p.dt = (r.coin(0.3) ? -1 : 1) * r.logu(1e-2, 5); Vec k(n), a(n); for (int i = 0; i < n; ++i) { k[i] = r.logu(0.1, 3); a[i] = r.uniform(0.05, 0.95); } double t0 = p.t0; p.scale = 1;
    p.f = [=](const Vec& y, double, Vec& d) { for (int i = 0; i < n; ++i) d[i] = k[i] * y[i] * (1 - y[i]); }; p.J = [=](const Vec& y, double) { Mat m = Mat::Zero(n, n); for (int i = 0; i < n; ++i) m(i, i) = k[i] * (1 - 2 * y[i]); return m; };
    p.y = [=](double t) { Vec v(n); for (int i = 0; i < n; ++i) v[i] = 1 / (1 + (1 / a[i] - 1) * std::exp(-k[i] * (t - t0))); return v; }; p.growth = std::exp(std::min(8.0, k.maxCoeff() * std::abs(p.dt))); p.name = vm::fmt("logistic n=%d", n); break; }
  case 3: { // quadratic decay
    p.n = r.range(1, 4); int n = p.n; p.dt = r.logu(1e-2, 10); Vec a(n); for (int i = 0; i < n; ++i) a[i] = r.logu(0.05, 100); double t0 = p.t0; p.scale = a.maxCoeff();
    p.f = [=](const Vec& y, double, Vec& d) { for (int i = 0; i < n; ++i) d[i] = -y[i] * y[i]; }; p.J = [=](const Vec& y, double) { Mat m = Mat::Zero(n, n); for (int i = 0; i < n; ++i) m(i, i) = -2 * y[i]; return m; };
    p.y = [=](double t) { Vec v(n); for (int i = 0; i < n; ++i) v[i] = a[i] / (1 + a[i] * (t - t0)); return v; }; p.name = vm::fmt("quadratic decay n=%d", n); break; }
  case 4: { // pure quadrature
    p.n = r.range(1, 4); int n = p.n, deg = r.range(0, 6); p.dt = (r.coin(0.3) ? -1 : 1) * r.logu(1e-3, 3); Mat c(n, deg + 1); for (int i = 0; i < n; ++i) for (int k = 0; k <= deg; ++k) c(i, k) = r.uniform(-mag, mag); Vec z = rnd(r, n, mag); double t0 = p.t0;
    p.f = [=](const Vec&, double t, Vec& d) { for (int i = 0; i < n; ++i) { d[i] = 0; for (int k = 0; k <= deg; ++k) d[i] += c(i, k) * std::pow(t - t0, k); } }; p.J = [=](const Vec&, double) { return Mat(Mat::Zero(n, n)); };
    p.y = [=](double t) { Vec v = z; for (int i = 0; i < n; ++i) for (int k = 0; k <= deg; ++k) v[i] += c(i, k) * std::pow(t - t0, k + 1) / (k + 1); return v; }; p.scale = mag * std::pow(1 + std::abs(p.dt), deg + 1); p.name = vm::fmt("quadrature n=%d degree %d", n, deg); break; }
  case 5: { // linear reaction chain A -> B -> C with stiff rates, mass conserving
    p.n = 3; double k1 = r.logu(0.1, 10), k2 = r.logu(20, 1e6), A = mag, t0 = p.t0; if (r.coin()) std::swap(k1, k2); p.dt = r.logu(1e-3, 10);
    p.f = [=](const Vec& y, double, Vec& d) { d[0] = -k1 * y[0]; d[1] = k1 * y[0] - k2 * y[1]; d[2] = k2 * y[1]; }; p.J = [=](const Vec&, double) { Mat m = Mat::Zero(3, 3); m(0, 0) = -k1; m(1, 0) = k1; m(1, 1) = -k2; m(2, 1) = k2; return m; };
    p.y = [=](double t) { double s = t - t0, a = std::exp(-k1 * s), b = std::exp(-k2 * s); Vec v(3); v[0] = A * a; v[1] = A * k1 / (k2 - k1) * (a - b); v[2] = A - v[0] - v[1]; return v; }; p.name = vm::fmt("chain %.3g %.3g", k1, k2); break; }
  default: { // stiff nonlinear attraction to a moving solution: y' = -k (y^3 - g^3) + g'
    p.n = r.range(1, 3); int n = p.n; double k = r.logu(1, 1e6), t0 = p.t0; p.dt = r.logu(1e-2, 6); Vec w(n), o(n); for (int i = 0; i < n; ++i) { w[i] = r.uniform(0.2, 3); o[i] = r.uniform(1.5, 3); } p.scale = 4; (void)t0;
    p.f = [=](const Vec& y, double t, Vec& d) { for (int i = 0; i < n; ++i) { double g = o[i] + std::sin(w[i] * t); d[i] = -k * (y[i] * y[i] * y[i] - g * g * g) + w[i] * std::cos(w[i] * t); } }; p.J = [=](const Vec& y, double) { Mat m = Mat::Zero(n, n); for (int i = 0; i < n; ++i) m(i, i) = -3 * k * y[i] * y[i]; return m; };
    p.y = [=](double t) { Vec v(n); for (int i = 0; i < n; ++i) v[i] = o[i] + std::sin(w[i] * t); return v; }; p.name = vm::fmt("cubic relaxation n=%d k=%.3g", n, k); }
  }
  return p;
}
struct Trace { std::vector<double> t; std::vector<Vec> y; long rhs = 0, jac = 0; double lo = 1e300, hi = -1e300; };
void run(const Problem& p, const OdeSolver& s, std::vector<double>& y, double t, double dt, int mode, Trace* tr) {
  Trace dummy; Trace& q = tr ? *tr : dummy; const int n = p.n; Vec d(n);
  auto rhs = [&](fub::span<double> dy, fub::span<const double> x, double tt) { ++q.rhs; q.lo = std::min(q.lo, tt); q.hi = std::max(q.hi, tt); p.f(Eigen::Map<const Vec>(x.data(), n), tt, d); for (int i = 0; i < n; ++i) dy[i] = d[i]; };
  auto fb = [&](fub::span<const double> x, double tt) { q.t.push_back(tt); q.y.push_back(Eigen::Map<const Vec>(x.data(), n)); };
  auto jac = [&](fub::span<double> m, fub::span<const double> x, double tt) { ++q.jac; Mat J = p.J(Eigen::Map<const Vec>(x.data(), n), tt); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) m[j * n + i] = J(i, j); };
  OdeSolver::system_type S(rhs); OdeSolver::feedback_type F(fb); OdeSolver::jacobian_type J(jac); fub::span<double> Y(y.data(), n);
  if (mode == 0) s.Integrate(S, Y, t, dt); else if (mode == 1) s.Integrate(S, Y, t, dt, F); else if (mode == 2) s.Integrate(S, Y, t, dt, J); else s.Integrate(S, Y, t, dt, F, J);
}
std::vector<double> vec(const Vec& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
double K = 5e3;
void exact(vm::Case& c, bool relaxed, bool& sharp) {
  auto& r = c.rng; Problem p = make(r); sharp = false; std::unique_ptr<OdeSolver> base; double rtol = 1e-12, atol = 1e-13;
  auto s = std::make_unique<RadauSolver>(); if (r.coin(0.7)) { s->relative_tolerance = rtol = r.logu(1e-11, 1e-4); s->absolute_tolerance = atol = rtol * r.logu(1e-3, 1) * p.scale; if (r.coin(0.3)) s->initial_time_step_size = r.logu(1e-10, 1e-1); }
  sharp = rtol <= 1e-9 && (p.fam == 0 || p.fam >= 5); if (relaxed) { s->relative_tolerance = rtol = 1e-8; s->absolute_tolerance = atol = 1e-8 * p.scale; }
  bool factory = rtol == 1e-12 && r.coin(); if (factory) base = fub::OdeSolverFactory::GetInstance().MakeSolver("RADAU", fub::OdeSolverOptions{}); else base = std::move(s);
  if (r.coin(0.3)) { Problem o = make(r); auto y = vec(o.y(o.t0)); c.describe("before: " + o.name + vm::fmt(" t0 %.9g dt %.9g rtol %g atol %g", o.t0, o.dt, rtol, atol)); try { run(o, *base, y, o.t0, o.dt, r.range(0, 3), nullptr); } catch (const fub::radau_error::Exception&) { c.event("reported failures", 1); } } // used before
  bool cl = r.coin(0.3); if (cl) base = base->Clone();
  int mode = r.range(0, 3); Trace tr; auto y = vec(p.y(p.t0)); c.describe(vm::fmt("%s t0 %.9g dt %.9g rtol %.3g atol %.3g mode %d%s%s", p.name.c_str(), p.t0, p.dt, rtol, atol, mode, cl ? " clone" : "", factory ? " factory" : ""));
  run(p, *base, y, p.t0, p.dt, mode, &tr);
  bool stiff = p.fam == 0 || p.fam >= 5; // order reduction: the estimate controls rtol^(4/7)
  auto tol = [&](double yi) { return (stiff ? 2 * std::pow(rtol, 4. / 7) * (std::max(std::abs(yi), 0.1 * p.scale) + atol / rtol) : 0) + K * p.growth * (rtol * std::max(std::abs(yi), 0.1 * p.scale) + atol) + 2e-13 * p.scale * p.growth + p.noise; };
  auto near = [&](const double* a, double t, const char* key, double f) { Vec e = p.y(t); for (int i = 0; i < p.n; ++i) c.checkf(std::abs(a[i] - e[i]) <= f * tol(e[i]), key, [&] { return vm::fmt("%s: component %d is %.17g at t=%.17g, exact %.17g (deviation %.3g, allowed %.3g)", p.name.c_str(), i, a[i], t, e[i], std::abs(a[i] - e[i]), f * tol(e[i])); }); };
  near(y.data(), p.t0 + p.dt, "solution", 1);
  double t1 = p.t0 + p.dt, eps = 1e-12 * (std::abs(p.dt) + std::abs(p.t0)), lo = std::min(p.t0, t1) - eps - 1e-5 * std::abs(p.dt), hi = std::max(p.t0, t1) + eps + 1e-5 * std::abs(p.dt);
  c.checkf(tr.lo >= lo && tr.hi <= hi, "outside", [&] { return vm::fmt("right-hand side evaluated on [%.17g, %.17g] for the interval from %.17g to %.17g", tr.lo, tr.hi, p.t0, t1); });
  c.checkf((mode >= 2) == (tr.jac > 0), "jacobian", [&] { return vm::fmt("jacobian called %ld times in mode %d", tr.jac, mode); });
  if (mode == 1 || mode == 3) {
    c.checkf(tr.t.size() >= 2 && tr.t.front() == p.t0 && std::abs(tr.t.back() - t1) <= eps, "callback-ends", [&] { return vm::fmt("%zu callbacks from %.17g to %.17g, interval %.17g to %.17g", tr.t.size(), tr.t.empty() ? 0.0 : tr.t.front(), tr.t.empty() ? 0.0 : tr.t.back(), p.t0, t1); });
    for (std::size_t k = 1; k < tr.t.size(); ++k) c.checkf((tr.t[k] - tr.t[k - 1]) * p.dt > 0, "callback-order", [&] { return vm::fmt("callback times %.17g, %.17g", tr.t[k - 1], tr.t[k]); });
    for (std::size_t k = 0; k < tr.t.size(); ++k) near(tr.y[k].data(), tr.t[k], "callback-value", k == 0 ? 1e-3 : 1);
    if (!tr.y.empty()) { bool same = true; for (int i = 0; i < p.n; ++i) same = same && tr.y.back()[i] == y[std::size_t(i)]; c.check(same, "callback-last", "last callback does not show the result"); }
  } else c.check(tr.t.empty(), "callback", "callback called");
  // split, repeat, copy
  auto z = vec(p.y(p.t0)); double f = r.u01(); int how = r.range(0, 2); auto q = base->Clone(); const OdeSolver& o = how == 0 ? *base : *q;
  if (how == 2) { run(p, *base, z, p.t0, p.dt, 0, nullptr); near(z.data(), t1, "repeat", 1); } else { run(p, o, z, p.t0, f * p.dt, 0, nullptr); near(z.data(), p.t0 + f * p.dt, "part", 1); run(p, how == 1 ? *base : *q, z, p.t0 + f * p.dt, (1 - f) * p.dt, mode, nullptr); near(z.data(), t1, "split", 2); }
  c.event("integrations", 3); c.event("right-hand sides", tr.rhs); c.event("callbacks", long(tr.t.size())); c.sig(vm::fmt("%s %d %d %d", p.name.c_str(), mode, int(std::log10(rtol) - 0.5), how));
}
// Tolerances near the rounding error of a stiff right-hand side may be refused, but not returned unmet; reasonable ones must work.
ORACLE("exact", 80000, 3000000) {
  const Rng start = c.rng; bool sharp = false;
  try { exact(c, false, sharp); } catch (const fub::radau_error::Exception& e) { c.event("reported failures", 1); c.checkf(sharp, "refused", [&] { return c.description + ": " + e.what(); }); c.rng = start; exact(c, true, sharp); }
}
ORACLE("failure", 3000, 200000) {
  auto& r = c.rng; RadauSolver s; int n = r.range(1, 5); int kind = r.range(0, 5); std::vector<double> y(std::size_t(n), 0.0), y0; for (auto& v : y) v = r.uniform(0.5, 2); y0 = y; double t0 = r.coin() ? 0.0 : r.uniform(-1, 1), dt = r.uniform(0.1, 2), at = t0 + dt * r.uniform(0.0, 0.9); bool threw = false, kindok = true; int bad = r.range(0, n - 1); std::string what;
  auto rhs = [&](fub::span<double> d, fub::span<const double> x, double t) {
    for (int i = 0; i < n; ++i) d[i] = -x[i];
    if (kind == 0 && t >= at) d[bad] = std::nan(""); // not evaluable from some time on
    if (kind == 1) for (int i = 0; i < n; ++i) d[i] = x[i] * x[i] * 40 / dt; // blows up inside the interval
    if (kind == 2) d[bad] = std::sqrt(at - t); // NaN past at
  };
  OdeSolver::system_type S(rhs); fub::span<double> Y(y.data(), n);
  if (kind == 3) { s.relative_tolerance = r.coin() ? 0.0 : -1e-3; }
  if (kind == 4) { auto j = [&](fub::span<double> m, fub::span<const double>, double) { for (auto& x : m) x = std::nan(""); }; OdeSolver::jacobian_type J(j); try { s.Integrate(S, Y, t0, dt, J); } catch (const fub::radau_error::Exception& e) { threw = true; what = e.what(); } }
  else { if (kind == 5) dt = 0; try { s.Integrate(S, Y, t0, dt); } catch (const fub::radau_error::Exception& e) { threw = true; what = e.what(); } catch (const std::logic_error& e) { threw = true; kindok = false; what = e.what(); } }
  c.describe(vm::fmt("kind %d n %d: %s", kind, n, what.c_str()));
  if (kind <= 3) c.checkf(threw && kindok, "not-reported", [&] { return vm::fmt("kind %d returned y0=%g after %g (%s)", kind, y[0], dt, what.c_str()); });
  else if (kind == 4) { if (!threw) for (int i = 0; i < n; ++i) c.checkf(std::abs(y[i] - y0[i] * std::exp(-dt)) <= 1e-8, "wrong-result", [&] { return vm::fmt("returned %g with an unusable jacobian", y[i]); }); }
  else { if (!threw) c.check(y == y0, "empty-interval", "an empty interval changed the solution"); }
  // the solver still works afterwards
  RadauSolver t; const RadauSolver& u = kind == 3 ? t : s; auto ok = [&](fub::span<double> d, fub::span<const double> x, double) { for (int i = 0; i < n; ++i) d[i] = -x[i]; }; OdeSolver::system_type G(ok); y = y0; u.Integrate(G, fub::span<double>(y.data(), n), 0.0, 1.0); for (int i = 0; i < n; ++i) c.checkf(std::abs(y[i] - y0[i] * std::exp(-1.0)) <= 1e-9, "after-failure", [&] { return vm::fmt("%.17g, expected %.17g after a failure of kind %d", y[i], y0[i] * std::exp(-1.0), kind); });
  c.event("failures", threw); c.sig(vm::fmt("%d %d %d %d %d", kind, n, bad, int(dt * 20), int((at - t0) / (dt + 1e-9) * 20)));
}
ORACLE("factory", 50, 500) {
  auto& r = c.rng; auto& f = fub::OdeSolverFactory::GetInstance(); std::string name = vm::fmt("own%d", r.range(0, 1000000)); double tol = r.logu(1e-10, 1e-3); bool threw = false;
  try { f.MakeSolver(name + "?", fub::OdeSolverOptions{}); } catch (const std::out_of_range&) { threw = true; } c.check(threw, "unknown-name", "an unknown solver name was accepted");
  fub::RegisterSpecificFactory reg(name, [tol](const fub::OdeSolverOptions&) { auto p = std::make_unique<RadauSolver>(); p->relative_tolerance = tol; return p; });
  auto s = f.MakeSolver(name, fub::OdeSolverOptions{}); auto* q = dynamic_cast<RadauSolver*>(s.get()); c.check(q && q->relative_tolerance == tol, "registered", "registered factory not used"); auto t = s->Clone(); auto* w = dynamic_cast<RadauSolver*>(t.get()); c.check(w && w->relative_tolerance == tol, "clone-tolerance", "a clone has other tolerances than its original"); c.sig(name); c.event("factories", 1);
}
} // namespace
