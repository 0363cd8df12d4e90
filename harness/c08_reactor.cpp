// C08: reacting-gas thermodynamics and chemistry against an independent model of
// the mixture; histories of set / read / advance / copy on one object.
#include "ad_igm.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include "vm.hpp"
using namespace md;
namespace {
using fub::Burke2012; using fub::FlameMasterReactor; using Vec = std::vector<double>;
constexpr int NS = 11; constexpr int EL = 5; // N Ar H O He
const char* NAME[NS] = {"N2", "AR", "H", "O2", "O", "OH", "H2", "H2O", "HE", "HO2", "H2O2"};
const int ELEM[NS][EL] = {{2, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 2, 0}, {0, 0, 0, 1, 0}, {0, 0, 1, 1, 0}, {0, 0, 2, 0, 0}, {0, 0, 2, 1, 0}, {0, 0, 0, 0, 1}, {0, 0, 1, 2, 0}, {0, 0, 2, 2, 0}};
const double ATOM[EL] = {14.007, 39.948, 1.008, 15.999, 4.0026};
constexpr double RU = 8314.462175;
const Burke2012& mech() { static const Burke2012 m; return m; }
double mass(int i) { static const Vec w = [] { Vec v(NS, 0.0); mech().getMolarMass(v); return v; }(); return w[std::size_t(i)]; }
void thermo(double T, Vec& h, Vec& cp) { h.assign(NS, 0.0); cp.assign(NS, 0.0); mech().ComputeThermoData(fub::span<double>(h), fub::span<double>(cp), T); }

struct Model { // independent description of a mixture
  Vec Y = Vec(NS, 0.0); double T = 300, rho = 1;
  double Minv() const { double s = 0; for (int i = 0; i < NS; ++i) s += Y[i] / mass(i); return s; }
  double p() const { return rho * RU * Minv() * T; }
  double mean(const Vec& q) const { double s = 0; for (int i = 0; i < NS; ++i) s += Y[i] * q[i]; return s; }
  double h() const { Vec a, b; thermo(T, a, b); return mean(a); }
  double cp() const { Vec a, b; thermo(T, a, b); return mean(b); }
  double cv() const { return cp() - RU * Minv(); }
  double u() const { return h() - RU * Minv() * T; }
  double uscale() const { Vec a, b; thermo(T, a, b); double s = 0; for (int i = 0; i < NS; ++i) s += Y[i] * std::abs(a[i]); return s + RU * Minv() * T; }
  double sound() const { return std::sqrt(cp() / cv() * p() / rho); }
  void elements(double* e) const { for (int k = 0; k < EL; ++k) { e[k] = 0; for (int i = 0; i < NS; ++i) e[k] += ELEM[i][k] * Y[i] / mass(i); } }
};
double rndT(Rng& r) { int k = r.range(0, 5); return k == 0 ? r.uniform(180, 300) : k == 1 ? 300.0 : k == 2 ? r.uniform(2000, 4000) : k == 3 ? r.uniform(980, 1020) : r.uniform(300, 2400); }
double tolT(double T) { return std::abs(T - 1000) < 2 ? 0.5 : 2e-5 + 1e-8 * T; }
bool rel(double a, double b, double t) { return std::abs(a - b) <= t * std::max(std::abs(a), std::abs(b)) + 1e-300; }

void judge(vm::Case& c, FlameMasterReactor& R, const Model& m, double t, const std::string& h) {
  auto msg = [&](const char* w, double a, double b) { return vm::fmt("%s: %s is %.17g, expected %.17g (T %.9g rho %.9g)", h.c_str(), w, a, b, m.T, m.rho); };
  auto Y = R.GetMassFractions(); double sum = 0;
  for (int i = 0; i < NS; ++i) { sum += Y[i]; c.checkf(std::abs(Y[i] - m.Y[i]) <= t, "composition", [&] { return msg((std::string("mass fraction of ") + NAME[i]).c_str(), Y[i], m.Y[i]); }); }
  c.checkf(std::abs(sum - 1) <= std::max(1e-12, t), "normalised", [&] { return msg("sum of mass fractions", sum, 1); });
  auto q = [&](const char* key, const char* w, double a, double b, double sc) { c.checkf(std::abs(a - b) <= t * std::max(std::abs(b), sc), key, [&] { return msg(w, a, b); }); };
  q("temperature", "temperature", R.GetTemperature(), m.T, 0); q("density", "density", R.GetDensity(), m.rho, 0);
  q("pressure", "pressure", R.GetPressure(), m.p(), 0); q("molar-mass", "mean molar mass", R.GetMeanMolarMass(), 1 / m.Minv(), 0);
  q("enthalpy", "enthalpy", R.GetEnthalpy(), m.h(), m.uscale()); q("energy", "internal energy", R.GetInternalEnergy(), m.u(), m.uscale());
  q("heat-capacity", "cp", R.GetCp(), m.cp(), 0); q("heat-capacity", "cv", R.GetCv(), m.cv(), 0);
}
void judge_deep(vm::Case& c, FlameMasterReactor& R, const Model& m, double t, const std::string& h) {
  Vec hh, cp; thermo(m.T, hh, cp); auto H = R.GetEnthalpies(); auto C = R.GetCps();
  for (int i = 0; i < NS; ++i) c.checkf(rel(H[i], hh[i], std::max(t, 1e-13) * (1 + RU / mass(i) * m.T / std::max(1.0, std::abs(hh[i])))) && rel(C[i], cp[i], t), "species-thermo", [&] { return h + vm::fmt(": enthalpy/heat capacity of %s is %.17g/%.17g, expected %.17g/%.17g", NAME[i], H[i], C[i], hh[i], cp[i]); });
  auto n = R.GetMoleFractions(); double s = 0; for (int i = 0; i < NS; ++i) s += n[i];
  for (int i = 0; i < NS; ++i) { double x = m.Y[i] / mass(i) / m.Minv(); c.checkf(std::abs(n[i] / s - x) <= t, "moles", [&] { return h + vm::fmt(": mole fraction of %s is %.17g, expected %.17g", NAME[i], n[i] / s, x); }); }
  // production rates of the present state
  Vec cd(NS, 0.0), w(std::size_t(mech().getNReactions()), 0.0), k(w.size(), 0.0), cc(NS, 0.0), M(std::size_t(mech().getNThirdBodyReactions()), 0.0); double big = 0;
  for (int i = 0; i < NS; ++i) cc[i] = m.Y[i] * m.rho / mass(i);
  mech().ComputeProductionRates(cd, w, k, cc, M, m.T, m.p()); for (double x : w) big = std::max(big, std::abs(x));
  auto P = R.GetProductionRates();
  for (int i = 0; i < NS; ++i) c.checkf(std::abs(P[i] - cd[i]) <= std::max(1e-9, 1e3 * t) * big + 1e-200, "production-rates", [&] { return h + vm::fmt(": production rate of %s is %.17g, expected %.17g (largest reaction rate %.3g; T %.9g rho %.9g)", NAME[i], P[i], cd[i], big, m.T, m.rho); });
  for (int e = 0; e < EL; ++e) { double sum = 0; for (int i = 0; i < NS; ++i) sum += ELEM[i][e] * P[i]; c.checkf(std::abs(sum) <= 1e-11 * big, "production-elements", [&] { return h + vm::fmt(": production rates create element %d at rate %g of %g", e, sum, big); }); }
  double mx = 0; Vec qv(NS); for (int i = 0; i < NS; ++i) { qv[i] = i * i + 1; mx += qv[i] * m.Y[i] / mass(i) / m.Minv(); }
  c.checkf(rel(R.MeanX(fub::span<const double>(qv)), mx, std::max(t, 1e-12)), "mean", [&] { return h + ": MeanX"; }); c.checkf(rel(R.MeanY(fub::span<const double>(qv)), m.mean(qv), std::max(t, 1e-12)), "mean", [&] { return h + ": MeanY"; });
}
const Vec& keep(Vec v) { static thread_local Vec k; k = std::move(v); return k; }
Vec rndY(Rng& r) { Vec y(NS, 0.0); random_Y(r, y); return y; }
std::string text(const Vec& y) { std::string s; for (int i = 0; i < NS; ++i) if (y[i] > 0) s += (s.empty() ? "" : (i % 2 ? "," : ", ")) + vm::fmt("%s:%.17g", NAME[i], y[i]); return s; }

struct Lanes { Model m[W]; bool open[W]; };
void judge_lanes(vm::Case& c, FlameMasterReactor& R, const Lanes& L, double t, const std::string& h) {
  auto T = R.GetTemperatureArray(), rho = R.GetDensityArray(), p = R.GetPressureArray(), H = R.GetEnthalpyArray(), U = R.GetInternalEnergyArray(), cp = R.GetCpArray(), cv = R.GetCvArray(), M = R.GetMeanMolarMassArray();
  auto& Y = R.GetMassFractionsArray();
  for (int l = 0; l < W; ++l) if (L.open[l]) {
    const Model& m = L.m[l]; const double tl = m.T >= 299.999998 && m.T < 300 ? std::max(t, 3e-8) : t; /* lanes use the value at 300 K in this microkelvin window */ auto q = [&](const char* key, const char* w, double a, double b, double sc) { c.checkf(std::abs(a - b) <= tl * std::max(std::abs(b), sc), key, [&] { return vm::fmt("%s lane %d: %s is %.17g, expected %.17g", h.c_str(), l, w, a, b); }); };
    for (int i = 0; i < NS; ++i) q("lane-composition", NAME[i], Y(i, l), m.Y[i], 1);
    q("lane-temperature", "temperature", T(l), m.T, 0); q("lane-density", "density", rho(l), m.rho, 0); q("lane-pressure", "pressure", p(l), m.p(), 0); q("lane-molar-mass", "molar mass", M(l), 1 / m.Minv(), 0);
    q("lane-enthalpy", "enthalpy", H(l), m.h(), m.uscale()); q("lane-energy", "internal energy", U(l), m.u(), m.uscale()); q("lane-heat-capacity", "cp", cp(l), m.cp(), 0); q("lane-heat-capacity", "cv", cv(l), m.cv(), 0);
  }
}
fub::Array1d arr(const Lanes& L, double (*f)(const Model&)) { fub::Array1d a; for (int l = 0; l < W; ++l) a(l) = f(L.m[l]); return a; }

void history(vm::Case& c) {
  auto& r = c.rng; auto R = std::make_unique<FlameMasterReactor>(mech()); Model m; m.Y[0] = 1; m.T = 300; m.rho = 101325 / (RU * m.Minv() * 300);
  Lanes L; for (int l = 0; l < W; ++l) { L.m[l] = m; L.open[l] = true; }
  std::string h = "new"; int ops = r.range(2, 12); const double t = 1e-11; std::string sig;
  judge(c, *R, m, t, h); judge_lanes(c, *R, L, t, h); if (r.coin(0.3)) judge_deep(c, *R, m, t, h);
  for (int k = 0; k < ops; ++k) {
    int op = r.range(0, 21); h += vm::fmt(" %d", op); sig += char('a' + op); bool lanes = false; double tt = t;
    switch (op) {
    case 0: { Vec y = rndY(r); for (auto& v : y) v *= r.coin() ? 1.0 : 3.0; if (r.coin(0.3)) y[r.range(0, 10)] = -0.1; double s = 0; Vec z = y; for (auto& v : z) { v = std::max(v, 0.0); s += v; } if (s == 0) break; for (auto& v : z) v /= s; R->SetMassFractions(fub::span<const double>(y)); m.Y = z; break; }
    case 1: { Vec y = rndY(r); if (r.coin()) for (auto& v : y) v *= 7; Vec z = y; double s = 0; for (double v : z) s += v; for (auto& v : z) v /= s; R->SetMassFractions(text(y)); m.Y = z; break; }
    case 2: case 3: { Vec x = rndY(r); Vec z(NS, 0.0); double s = 0; for (int i = 0; i < NS; ++i) s += z[i] = x[i] * mass(i); for (auto& v : z) v /= s; if (op == 2) R->SetMoleFractions(fub::span<const double>(x)); else R->SetMoleFractions(text(x)); m.Y = z; break; }
    case 4: case 5: m.T = rndT(r); R->SetTemperature(m.T); break;
    case 6: m.rho = r.logu(1e-3, 50); R->SetDensity(m.rho); break;
    case 7: { double p = r.logu(1e3, 1e7); R->SetPressure(p); m.rho = p / (RU * m.Minv() * m.T); break; }
    case 8: case 9: { Model n = m; n.T = rndT(r); double want = op == 8 ? n.u() : n.h(); if (op == 8) R->SetInternalEnergy(want); else R->SetEnthalpy(want, 1e-6);
      double got = R->GetTemperature(); c.checkf(std::abs(got - n.T) <= tolT(n.T), op == 8 ? "set-energy" : "set-enthalpy", [&] { return h + vm::fmt(": temperature %.17g, expected %.17g", got, n.T); });
      double back = op == 8 ? R->GetInternalEnergy() : R->GetEnthalpy(); c.checkf(std::abs(back - want) <= 1e-7 * n.uscale(), op == 8 ? "set-energy" : "set-enthalpy", [&] { return h + vm::fmt(": reads back %.17g, set %.17g", back, want); }); m.T = got; break; }
    case 10: { auto N = std::make_unique<FlameMasterReactor>(*R); if (r.coin()) { R->SetTemperature(777); R->SetDensity(3); R->SetMassFractions(fub::span<const double>(keep(rndY(r)))); R->SetTemperatureArray(fub::Array1d::Constant(555.)); } R = std::move(N); break; }
    case 11: { FlameMasterReactor N(mech()); if (r.coin()) { N.SetTemperature(888); N.SetPressure(2e5); } N = *R; auto P = std::make_unique<FlameMasterReactor>(N); R = std::move(P); break; }
    case 12: { auto N = std::make_unique<FlameMasterReactor>(std::move(*R)); R = std::move(N); break; }
    case 13: { auto N = std::make_unique<FlameMasterReactor>(mech()); if (r.coin()) N->SetTemperatureArray(fub::Array1d::Constant(432.)); *N = std::move(*R); R = std::move(N); lanes = true; break; }
    case 14: { fub::ArrayXd y(NS, W); for (int l = 0; l < W; ++l) { Vec v = rndY(r); for (int i = 0; i < NS; ++i) y(i, l) = 2 * v[i]; L.m[l].Y = v; } for (int l = 0; l < W; ++l) { double s = 0; for (double v : L.m[l].Y) s += v; for (auto& v : L.m[l].Y) v /= s; } R->SetMassFractionsArray(y); lanes = true; break; }
    case 15: { for (auto& x : L.m) x.T = rndT(r); R->SetTemperatureArray(arr(L, [](const Model& x) { return x.T; })); lanes = true; break; }
    case 16: { for (auto& x : L.m) x.rho = r.logu(1e-3, 50); R->SetDensityArray(arr(L, [](const Model& x) { return x.rho; })); lanes = true; break; }
    case 17: { fub::Array1d p; for (int l = 0; l < W; ++l) { p(l) = r.logu(1e3, 1e7); L.m[l].rho = p(l) / (RU * L.m[l].Minv() * L.m[l].T); } R->SetPressureArray(p); lanes = true; break; }
    case 18: { Lanes n = L; for (auto& x : n.m) x.T = rndT(r); R->SetInternalEnergyArray(arr(n, [](const Model& x) { return x.u(); })); auto T = R->GetTemperatureArray();
      for (int l = 0; l < W; ++l) { c.checkf(std::abs(T(l) - n.m[l].T) <= tolT(n.m[l].T), "lane-set-energy", [&] { return h + vm::fmt(" lane %d: temperature %.17g, expected %.17g", l, T(l), n.m[l].T); }); L.m[l].T = T(l); } lanes = true; break; }
    case 19: { // composition and energy of the open lanes only, then everything is set again
      bool o[W]; Lanes n = L; fub::ArrayXd y(NS, W); for (int l = 0; l < W; ++l) { o[l] = r.coin(0.6); Vec v = rndY(r); for (int i = 0; i < NS; ++i) y(i, l) = o[l] ? v[i] : (r.coin() ? 0.0 : std::nan("")); if (o[l]) { double s = 0; for (double z : v) s += z; for (auto& z : v) z /= s; n.m[l].Y = v; } n.open[l] = o[l]; n.m[l].T = rndT(r); }
      R->SetMassFractionsArray(y, to_mask(o)); R->SetTemperatureArray(fub::Array1d::Constant(300.));
      fub::Array1d e = arr(n, [](const Model& x) { return x.u(); }); R->SetInternalEnergyArray(e, to_mask(o)); auto T = R->GetTemperatureArray();
      for (int l = 0; l < W; ++l) if (o[l]) { c.checkf(std::abs(T(l) - n.m[l].T) <= tolT(n.m[l].T), "masked-set-energy", [&] { return h + vm::fmt(" lane %d: temperature %.17g, expected %.17g", l, T(l), n.m[l].T); }); n.m[l].T = T(l); }
      judge_lanes(c, *R, n, t, h + " masked"); L = n;
      for (int l = 0; l < W; ++l) { L.open[l] = true; if (!o[l]) { L.m[l].Y = Vec(NS, 0.0); L.m[l].Y[0] = 1; } for (int i = 0; i < NS; ++i) y(i, l) = L.m[l].Y[i]; L.m[l].T = 400 + 10 * l; }
      R->SetMassFractionsArray(y); R->SetTemperatureArray(arr(L, [](const Model& x) { return x.T; })); lanes = true; break; }
    case 20: { if (!r.coin(0.4)) break; double p0 = m.p(), p1 = p0 * r.logu(0.2, 5); if (m.T > 2500) break; Model n = m; double v = R->SetPressureIsentropic(p1);
      // integrate dT/dlnp = R T / cp by Runge-Kutta
      double T = m.T, lp = std::log(p0), l1 = std::log(p1), dv = 0; int K = 400; double dl = (l1 - lp) / K;
      auto f = [&](double TT) { n.T = TT; return RU * n.Minv() * TT / n.cp(); }; auto g = [&](double TT) { n.T = TT; return -std::sqrt(n.cv() / n.cp() * RU * n.Minv() * TT); };
      for (int s = 0; s < K; ++s) { double k1 = f(T), k2 = f(T + dl / 2 * k1), k3 = f(T + dl / 2 * k2), k4 = f(T + dl * k3); double Tm = T + dl / 2 * (k1 + k2) / 2, T1 = T + dl / 6 * (k1 + 2 * k2 + 2 * k3 + k4); dv += dl / 6 * (g(T) + 4 * g(Tm) + g(T1)); T = T1; }
      double got = R->GetTemperature(); c.checkf(rel(R->GetPressure(), p1, 1e-9), "isentropic-pressure", [&] { return h + vm::fmt(": pressure %.17g, set %.17g", R->GetPressure(), p1); });
      c.checkf(std::abs(got - T) <= 1e-5 * T, "isentropic-temperature", [&] { return h + vm::fmt(": temperature %.17g, on the isentrope %.17g (p %g -> %g)", got, T, p0, p1); });
      c.checkf(std::abs(v - dv) <= 5e-5 * std::abs(dv) + 2e-3, "isentropic-velocity", [&] { return h + vm::fmt(": velocity change %.17g, expected %.17g (p %g -> %g)", v, dv, p0, p1); });
      m.T = got; m.rho = p1 / (RU * m.Minv() * got); tt = 1e-9; m.rho = R->GetDensity(); c.event("isentropic", 1); break; }
    default: { if (!r.coin(0.3) || m.T > 3000) break; double dt = r.logu(1e-8, 1e-5), u0 = R->GetInternalEnergy(); R->Advance(r.coin(0.1) ? 0.0 : dt); Model n = m; auto Y = R->GetMassFractions(); for (int i = 0; i < NS; ++i) n.Y[i] = Y[i]; n.T = R->GetTemperature();
      c.checkf(std::abs(n.u() - u0) <= 2e-5 * n.uscale(), "advance-energy", [&] { return h + vm::fmt(": internal energy changed from %.17g to %.17g", u0, n.u()); }); m = n; tt = 1e-9; c.event("advance", 1); break; }
    }
    if (tt > t) { judge(c, *R, m, tt, h); // mass fractions may leave the unit interval by the solver tolerance: normalise before going on
      Vec y = m.Y; double s = 0; for (auto& v : y) s += v = std::max(v, 0.0); for (auto& v : y) v /= s; R->SetMassFractions(fub::span<const double>(m.Y)); m.Y = y; h += " n"; }
    judge(c, *R, m, t, h); if (r.coin(0.4)) { judge_deep(c, *R, m, t, h); h += " d"; }
    if (lanes || r.coin(0.3)) judge_lanes(c, *R, L, t, h);
    c.event("operations", 1);
  }
  c.sig(sig);
}
ORACLE("history", 12000, 400000) {
  for (int k = 0;; ++k) try { history(c); return; }
    catch (const fub::radau_error::Exception& e) { c.event("reported integrator failures", 1); if (k == 4) { c.check(false, "integrator-failed", e.what()); return; } for (int i = 0; i <= k; ++i) c.rng.u01(); }
}
// composition strings
ORACLE("text", 20000, 1000000) {
  auto& r = c.rng; FlameMasterReactor R(mech()); const bool mole = r.coin(); Vec y(NS, 0.0); int n = r.range(1, 6); std::vector<std::string> part; double s = 0;
  std::vector<int> id(NS); for (int i = 0; i < NS; ++i) id[i] = i; for (int i = 0; i < NS; ++i) std::swap(id[i], id[r.range(i, NS - 1)]);
  for (int k = 0; k < n; ++k) { double v = r.coin(0.3) ? double(r.range(1, 9)) : r.coin() ? r.u01() + 1e-6 : r.logu(1e-8, 1e3); y[id[k]] = v; part.push_back(std::string(NAME[id[k]]) + ":" + (r.coin(0.2) ? " " : "") + vm::fmt(r.coin() ? "%.17g" : "%.17e", v)); }
  auto join = [&] { std::string t; for (std::size_t i = 0; i < part.size(); ++i) t += (i ? r.pick(std::vector<std::string>{",", ", ", "  ", " , "}) : std::string()) + part[i]; return t; };
  int bad = r.coin() ? 0 : r.range(1, 4), at = r.range(0, n - 1); std::string& q = part[std::size_t(at)]; std::string t;
  if (bad == 1) q = q.substr(0, q.find(':') + 1); else if (bad == 2) q = q.substr(0, q.find(':')) + ":x"; else if (bad == 3) q = "Xx" + q; else if (bad == 4) q = q.substr(0, q.find(':'));
  t = join(); c.describe(t); bool threw = false; auto set = [&] { if (mole) R.SetMoleFractions(t); else R.SetMassFractions(t); };
  try { set(); } catch (const fub::FlameMasterReactorException&) { threw = true; }
  c.checkf(threw == (bad != 0), bad ? "malformed-accepted" : "rejected", [&] { return "'" + t + "'"; });
  if (!threw) { for (int i = 0; i < NS; ++i) s += y[i] *= mole ? mass(i) : 1.0; auto Y = R.GetMassFractions(); for (int i = 0; i < NS; ++i) c.checkf(std::abs(Y[i] - y[i] / s) <= 1e-14, "value", [&] { return vm::fmt("'%s': %s is %.17g, expected %.17g", t.c_str(), NAME[i], Y[i], y[i] / s); }); }
  c.event("strings", 1); c.sig(vm::fmt("%d %d %d %d %d", n, bad, at, int(mole), id[0]));
}
// properties of the mechanism data themselves
ORACLE("mechanism", 100000, 2000000) {
  auto& r = c.rng; double T = r.uniform(150, 4500); Vec h, cp, hp, hm, x;
  for (double b : {300., 1000.}) if (std::abs(T - b) < 0.2) T += 1;
  double e = 1e-2; thermo(T, h, cp); thermo(T + e, hp, x); thermo(T - e, hm, x); int i = r.range(0, NS - 1);
  double d = (hp[i] - hm[i]) / (2 * e); c.checkf(std::abs(d - cp[i]) <= 1e-5 * cp[i] + 1e-10 * (std::abs(h[i]) + cp[i] * T) / e, "enthalpy-slope", [&] { return vm::fmt("%s at %.9g K: dh/dT %.12g, cp %.12g", NAME[i], T, d, cp[i]); });
  c.checkf(cp[i] * mass(i) > 2.4 * RU, "heat-capacity-positive", [&] { return vm::fmt("%s at %.9g K: cp/R %.12g", NAME[i], T, cp[i] * mass(i) / RU); });
  for (double b : {300., 1000.}) { Vec a1, a2, b1, b2; thermo(b - 1e-9, a1, a2); thermo(b + 1e-9, b1, b2); c.checkf(std::abs(a1[i] - b1[i]) <= 1e-3 * cp[i] * 300 && std::abs(a2[i] - b2[i]) <= 5e-3 * a2[i], "branch-jump", [&] { return vm::fmt("%s at %g K: h %.9g | %.9g, cp %.9g | %.9g", NAME[i], b, a1[i], b1[i], a2[i], b2[i]); }); }
  double mm = 0; for (int k = 0; k < EL; ++k) mm += ELEM[i][k] * ATOM[k]; c.checkf(rel(mm, mass(i), 2e-3), "molar-mass", [&] { return vm::fmt("%s: molar mass %.9g, atoms weigh %.9g", NAME[i], mass(i), mm); });
  c.check(mech().getSpeciesNames()[std::size_t(i)] == NAME[i], "names", "species names");
  fub::ArrayXd H(NS, W), C(NS, W); fub::Array1d TT; for (int l = 0; l < W; ++l) TT(l) = l == 0 ? T : rndT(r); mech().ComputeThermoData(H, C, TT);
  for (int l = 0; l < W; ++l) { thermo(TT(l), h, cp); for (int k = 0; k < NS; ++k) c.checkf(std::abs(H(k, l) - h[k]) <= 1e-12 * (std::abs(h[k]) + cp[k] * TT(l)) * 10 && rel(C(k, l), cp[k], 1e-12), "lane-thermo", [&] { return vm::fmt("%s at %.17g K in lane %d: h %.17g cp %.17g, scalar %.17g %.17g", NAME[k], TT(l), l, H(k, l), C(k, l), h[k], cp[k]); }); }
  // rates: elements are conserved, nothing happens without reactants, lanes of absent species are never consumed
  Vec Y = rndY(r), cc(NS, 0.0), cd(NS, 0.0), w(std::size_t(mech().getNReactions()), 0.0), k(w.size(), 0.0), M(std::size_t(mech().getNThirdBodyReactions()), 0.0); double rho = r.logu(1e-3, 50), big = 0, n = 0;
  for (int s = 0; s < NS; ++s) n += cc[s] = rho * Y[s] / mass(s);
  mech().ComputeProductionRates(cd, w, k, cc, M, T, n * RU * T); for (double v : w) big = std::max(big, std::abs(v));
  for (int el = 0; el < EL; ++el) { double s = 0; for (int q = 0; q < NS; ++q) s += ELEM[q][el] * cd[q]; c.checkf(std::abs(s) <= 1e-11 * big, "rate-elements", [&] { return vm::fmt("element %d is created at %g (largest rate %g)", el, s, big); }); }
  for (int s = 0; s < NS; ++s) if (cc[s] == 0) c.checkf(cd[s] >= -1e-14 * big, "absent-consumed", [&] { return vm::fmt("absent %s is consumed at %g", NAME[s], cd[s]); });
  for (int s : {0, 1, 8}) c.checkf(cd[s] == 0, "inert", [&] { return vm::fmt("%s reacts at %g", NAME[s], cd[s]); });
  c.sig(vm::fmt("%s %d %d", NAME[i], int(T / 20), int(std::floor(std::log10(rho) * 2)))); c.event("states", 9);
}
// closed-volume reactions
void reaction(vm::Case& c, double factor) {
  auto& r = c.rng; Model m; Vec X(NS, 0.0); int kind = r.range(0, 4);
  if (kind <= 2) { X[6] = r.u01() * 2; X[3] = r.u01() * 1.5; X[0] = r.coin() ? r.u01() * 5 : 0; X[1] = r.coin(0.3) ? r.u01() : 0; X[8] = r.coin(0.3) ? r.u01() : 0; X[7] = r.coin(0.3) ? r.u01() : 0; if (r.coin(0.3)) for (int s : {2, 4, 5, 9, 10}) X[s] = r.u01() * 0.05; }
  else if (kind == 3) { X[0] = r.u01(); X[1] = r.u01(); X[8] = r.u01() + 0.01; } // inert
  else for (auto& x : X) x = r.coin(0.5) ? r.u01() : 0;
  double s = 0; for (int i = 0; i < NS; ++i) s += m.Y[i] = X[i] * mass(i); if (s == 0) { m.Y[0] = s = 1; } for (auto& y : m.Y) y /= s;
  m.T = kind == 3 ? r.uniform(300, 2500) : r.coin(0.15) ? r.uniform(300, 500) : r.uniform(900, 2200); double p = r.logu(2e4, 3e6); m.rho = p / (RU * m.Minv() * m.T);
  double dt = factor * r.logu(1e-8, 1e-4); auto R = std::make_unique<FlameMasterReactor>(mech());
  if (r.coin()) { R->SetMassFractions(fub::span<const double>(keep(rndY(r)))); R->SetTemperature(r.uniform(300, 2000)); R->SetPressure(r.logu(1e4, 1e6)); if (r.coin()) R->Advance(1e-7); } // used before
  auto set = [&](FlameMasterReactor& q) { int o = r.range(0, 2); if (o == 0) { q.SetTemperature(m.T); q.SetMassFractions(fub::span<const double>(m.Y)); q.SetDensity(m.rho); } else if (o == 1) { q.SetDensity(m.rho); q.SetMassFractions(fub::span<const double>(m.Y)); q.SetTemperature(m.T); } else { q.SetMassFractions(fub::span<const double>(m.Y)); q.SetTemperature(m.T); q.SetPressure(m.p()); } };
  set(*R); FlameMasterReactor F(mech()); set(F); m.rho = R->GetDensity(); F.SetDensity(m.rho); R->SetDensity(m.rho);
  c.describe(vm::fmt("T %.9g p %.6g dt %.3g Y(%s)", m.T, p, dt, text(m.Y).c_str()));
  int how = r.range(0, 2); long calls = 0; double lastt = 0, firstT = -1; bool mono = true;
  auto fb = [&](fub::span<const double> y, double t, FlameMasterReactor*) { ++calls; if (t < lastt) mono = false; lastt = t; if (firstT < 0) firstT = y[0]; };
  if (how == 0) R->Advance(dt); else if (how == 1) R->Advance(dt, fb); else R->AdvanceAndFindMaxdT(dt);
  Model n = m; { auto Y = R->GetMassFractions(); for (int i = 0; i < NS; ++i) n.Y[i] = Y[i]; n.T = R->GetTemperature(); }
  c.check(R->GetDensity() == m.rho, "advance-density", "density changed");
  double sum = 0, neg = 0; for (double y : n.Y) { sum += y; neg = std::min(neg, y); }
  c.checkf(std::abs(sum - 1) <= 1e-7, "advance-mass", [&] { return vm::fmt("mass fractions sum to %.17g", sum); }); c.checkf(neg >= -1e-6, "advance-negative", [&] { return vm::fmt("mass fraction %g", neg); });
  double e0[EL], e1[EL]; m.elements(e0); n.elements(e1); for (int k = 0; k < EL; ++k) c.checkf(std::abs(e0[k] - e1[k]) <= 1e-7 * m.Minv(), "advance-elements", [&] { return vm::fmt("element %d: %.17g -> %.17g", k, e0[k], e1[k]); });
  c.checkf(std::abs(n.u() - m.u()) <= 2e-5 * m.uscale(), "advance-energy", [&] { return vm::fmt("internal energy %.17g -> %.17g (scale %g)", m.u(), n.u(), m.uscale()); });
  judge(c, *R, n, 1e-6, "after advance"); judge_deep(c, *R, n, 1e-6, "after advance");
  if (how == 1) { c.checkf(calls >= 1 && mono && std::abs(lastt - dt) <= 1e-9 * dt, "feedback", [&] { return vm::fmt("feedback called %ld times, last at %.17g of %.17g, increasing %d", calls, lastt, dt, int(mono)); }); }
  if (kind == 3) { for (int i = 0; i < NS; ++i) c.checkf(std::abs(n.Y[i] - m.Y[i]) <= 1e-9, "inert-composition", [&] { return vm::fmt("inert %s changed from %.17g to %.17g", NAME[i], m.Y[i], n.Y[i]); }); c.checkf(rel(n.T, m.T, 1e-9), "inert-temperature", [&] { return vm::fmt("%.17g -> %.17g", m.T, n.T); }); }
  auto diff = [&](FlameMasterReactor& q, double tol, const char* key) { auto Y = q.GetMassFractions(); double d = std::abs(q.GetTemperature() - n.T) / n.T; for (int i = 0; i < NS; ++i) d = std::max(d, std::abs(Y[i] - n.Y[i])); c.checkf(d <= tol, key, [&] { return vm::fmt("deviation %g: temperature %.12g and %.12g", d, q.GetTemperature(), n.T); }); return d; };
  // fresh object, same state: same result
  F.Advance(dt); diff(F, 1e-5, "history");
  // additivity
  FlameMasterReactor A(mech()); A.SetTemperature(m.T); A.SetMassFractions(fub::span<const double>(m.Y)); A.SetDensity(m.rho); double f = r.u01(); A.Advance(f * dt); if (r.coin()) { FlameMasterReactor B(A); A = B; } A.Advance((1 - f) * dt);
  diff(A, 1.5e-3, "additive"); // ignition delays amplify the integrator tolerance
  c.event("reactions", 3); c.sig(vm::fmt("%d T%d p%d dt%d dT%d how%d", kind, int(m.T / 100), int(std::log10(p) * 2), int(std::log10(dt) * 2), int((n.T - m.T) / 100), how));
}
// The integrator may report that its step size collapsed (seen once in ten thousand ignitions); a slightly different interval must then do.
ORACLE("reaction", 4000, 120000) {
  const Rng start = c.rng;
  for (int k = 0;; ++k) try { c.rng = start; reaction(c, std::pow(0.83, k)); return; }
    catch (const fub::radau_error::Exception& e) { c.event("reported integrator failures", 1); if (k == 4) { c.check(false, "integrator-failed", e.what()); return; } }
}
// complete states of IdealGasMix
template <int N> void gas(vm::Case& c) {
  auto& r = c.rng; using E = fub::IdealGasMix<N>; auto ad = make_igm<N>(r); E& eq = ad->eqn; Model m[W]; double u[W][3]; bool o[W]; int nq = ad->ncomp; std::vector<double> q8(std::size_t(nq * W)), q(std::size_t(nq), 0.0);
  int iT = ad->idx("Temperature"), iP = ad->idx("Pressure"), iC = ad->idx("SpeedOfSound"), icp = ad->idx("HeatCapacityAtConstantPressure"), ig = ad->idx("HeatCapacityRatio"), iE = ad->idx("Energy"), iS = ad->idx("Species");
  if (icp < 0) icp = iC + 2; if (ig < 0) ig = iC + 3; if (iT < 0) iT = iC + 1;
  auto ref = [&](int l) { std::vector<double> x(std::size_t(nq), 0.0); const Model& a = m[l]; double k = 0; x[0] = a.rho; for (int d = 0; d < N; ++d) { x[1 + d] = a.rho * u[l][d]; k += 0.5 * a.rho * u[l][d] * u[l][d]; } x[iE] = a.rho * a.u() + k; for (int i = 0; i < NS; ++i) x[iS + i] = a.rho * a.Y[i]; x[iP] = a.p(); x[iC] = a.sound(); x[iT] = a.T; x[icp] = a.cp(); x[ig] = a.cp() / a.cv(); return x; };
  int mode = r.range(0, 2); unsigned bits = 0; auto& Rc = eq.GetReactor();
  for (int l = 0; l < W; ++l) { m[l].Y = rndY(r); m[l].T = r.uniform(300, 2400); if (std::abs(m[l].T - 1000) < 2) m[l].T = 1010; m[l].rho = r.logu(0.01, 20); for (int d = 0; d < 3; ++d) u[l][d] = r.uniform(-900, 900); o[l] = mode != 2 || r.coin(0.6); bits |= unsigned(o[l]) << l; auto x = ref(l); for (int i = 0; i < nq; ++i) q8[std::size_t(i * W + l)] = o[l] ? x[std::size_t(i)] : (r.coin() ? 0.0 : x[std::size_t(i)]); }
  if (r.coin()) { Rc.SetTemperature(r.uniform(300, 2000)); Rc.SetMassFractions(fub::span<const double>(keep(rndY(r)))); Rc.SetPressure(3e4); }
  auto judge = [&](const double* x, int l, const char* key, double t) { auto w = ref(l); double es = m[l].rho * m[l].uscale() + std::abs(w[iE]); for (int i = 0; i < nq; ++i) { double sc = i == iE ? es : i >= iS && i < iS + NS ? m[l].rho : std::abs(w[std::size_t(i)]); c.checkf(std::abs(x[i] - w[std::size_t(i)]) <= t * sc, key, [&] { return vm::fmt("%s lane %d: %s %d is %.17g, expected %.17g", ad->name.c_str(), l, ad->comps[std::size_t(i)].var.c_str(), i, x[i], w[std::size_t(i)]); }); } };
  fub::Complete<E> a(eq), b(eq); fub::CompleteArray<E> A(eq), B(eq);
  if (mode == 0) {
    auto x = ref(0); unflat(a, x.data()); fub::Conservative<E> w(eq); unflat(w, x.data());
    int f = r.range(0, 3); if (f == 0) fub::CompleteFromCons(eq, b, w); else if (f == 1) fub::CompleteFromCons(eq, b, a); else if (f == 2) { b = a; fub::CompleteFromCons(eq, b, b); } else { eq.SetReactorStateFromComplete(a); fub::Array<double, N, 1> v; for (int d = 0; d < N; ++d) v[d] = u[0][d]; eq.CompleteFromReactor(b, v); }
    flat(b, q.data()); judge(q.data(), 0, f == 3 ? "reactor-round-trip" : "from-cons", f == 3 ? 1e-11 : 2e-7);
    if (f != 3) for (int i = 0; i <= N; ++i) c.check(std::abs(q[std::size_t(i)] - x[std::size_t(i)]) <= 1e-14 * std::abs(x[std::size_t(i)]), "from-cons-changed", "density or momentum changed");
    // rotation and reflection keep everything but the direction of the momentum
    Eigen::Matrix<double, N, 1> n; do for (int d = 0; d < N; ++d) n[d] = r.uniform(-1, 1); while (n.norm() < 0.1); n /= n.norm(); Eigen::Matrix<double, N, 1> mo; for (int d = 0; d < N; ++d) mo[d] = x[1 + d];
    auto kept = [&](const fub::Complete<E>& z, const Eigen::Matrix<double, N, 1>& want, const char* key) { std::vector<double> y(std::size_t(nq), 0.0); flat(z, y.data()); for (int i = 0; i < nq; ++i) c.checkf(i >= 1 && i <= N ? std::abs(y[i] - want[i - 1]) <= 1e-12 * mo.norm() : y[i] == x[std::size_t(i)], key, [&] { return vm::fmt("%s: component %d is %.17g", key, i, y[i]); }); };
    fub::Reflect(b, a, n, eq); kept(b, mo - 2 * mo.dot(n) * n, "reflect");
    if constexpr (N > 1) { Eigen::Matrix<double, N, 1> e = Eigen::Matrix<double, N, 1>::Zero(); e[0] = 1; if (n[0] > -0.9) { Eigen::Matrix<double, N, N> Q = fub::MakeRotation(e, n); fub::Rotate(b, a, Q, eq); kept(b, Q * mo, "rotate"); fub::Conservative<E> wr(eq); fub::Rotate(wr, w, Q, eq); std::vector<double> y(std::size_t(nq), 0.0); flat(wr, y.data()); bool same = true; for (int i = 0; i < ad->ncons; ++i) if (i < 1 || i > N) same = same && y[std::size_t(i)] == x[std::size_t(i)]; c.check(same, "rotate", "conservative state"); } }
  } else {
    unflat8(A, q8.data()); fub::ConservativeArray<E> w(eq); unflat8(w, q8.data()); int f = r.range(0, 1);
    if (mode == 1) { if (f) fub::CompleteFromCons(eq, B, w); else eq.CompleteFromCons(B, w); } else eq.CompleteFromCons(B, w, to_mask(o));
    std::vector<double> x8(q8.size()); flat8(B, x8.data());
    for (int l = 0; l < W; ++l) { for (int i = 0; i < nq; ++i) q[std::size_t(i)] = x8[std::size_t(i * W + l)]; if (o[l]) judge(q.data(), l, mode == 1 ? "from-cons-lanes" : "from-cons-masked", 2e-7); else for (int i = 0; i < nq; ++i) c.checkf(q[std::size_t(i)] == 0, "masked-lane", [&] { return vm::fmt("closed lane %d holds %g in %s", l, q[std::size_t(i)], ad->comps[std::size_t(i)].var.c_str()); }); }
  }
  c.event("complete states", mode ? W : 1); c.sig(vm::fmt("%s m%d %x T%d", ad->name.c_str(), mode, bits, int(m[0].T / 50)));
}
ORACLE("gas", 40000, 800000) { switch (c.rng.range(0, 2)) { case 0: gas<1>(c); break; case 1: gas<2>(c); break; default: gas<3>(c); } }
} // namespace
