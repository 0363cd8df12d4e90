#pragma once
// helpers shared by the checks that evaluate single stencils
#include "model.hpp"
namespace md {
inline Factory& pick(vm::Case& c) { return methods()[std::size_t(c.index % long(methods().size()))]; }
inline bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
// evaluates the flux of one stencil through a randomly chosen entry point
inline std::string eval(vm::Case& c, Method& m, const Vec& st, double dt, double dx, int dir, Vec& f) {
  auto& r = c.rng; auto& e = m.eq(); const int n = 2 * m.width; int how = r.range(0, 3);
  if (how == 0 && !m.has1) how = 1;
  if (how == 3 && !m.masked) how = 2;
  f.assign(std::size_t(e.ncons), 0.0);
  if (how == 0) { m.flux(st.data(), dt, dx, dir, f.data()); return "cell"; }
  if (how == 1 || how == 3) {
    int lane = r.range(0, W - 1); Vec s8(st.size() * W), f8(f.size() * W), q(std::size_t(n * e.ncomp));
    for (int l = 0; l < W; ++l) { q = st; if (l != lane) { int b = r.range(0, n - 1); for (int k = 0; k < n; ++k) std::copy(st.begin() + b * e.ncomp, st.begin() + (b + 1) * e.ncomp, q.begin() + k * e.ncomp); } for (std::size_t i = 0; i < st.size(); ++i) s8[i * W + std::size_t(l)] = q[i]; }
    if (how == 1) m.flux8(s8.data(), dt, dx, dir, f8.data());
    else { Vec face(W, 1.0), vol(std::size_t(n * W), 1.0); for (int l = 0; l < W; ++l) if (l != lane && r.coin(0.4)) face[l] = 0; m.fluxm(s8.data(), face.data(), vol.data(), dt, dx, dir, f8.data()); }
    for (int k = 0; k < e.ncons; ++k) f[k] = f8[k * W + lane];
    return how == 1 ? "vector" : "masked";
  }
  // a patch with one row that holds this stencil somewhere
  Idx lo{r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)}, hi; for (int d = 0; d < 3; ++d) { if (d >= e.rank) lo[d] = 0; hi[d] = lo[d] + 1; } int before = r.range(0, 9), after = r.range(0, 9);
  Idx clo = lo, chi = hi; clo[dir] -= before + m.width; chi[dir] += after + m.width - 1; Idx flo = lo, fhi = hi; flo[dir] -= before; fhi[dir] += after;
  Field q(e.rank, e.ncomp, clo, chi, 1, 1, 0), fl(e.rank, e.ncons, flo, fhi, 1, 1, 0); Vec a(std::size_t(e.ncomp));
  q.each([&](Idx i) { int k = std::clamp(int(i[dir] - lo[dir]) + m.width, 0, n - 1); std::copy(st.begin() + k * e.ncomp, st.begin() + (k + 1) * e.ncomp, a.begin()); q.set(i, a.data()); });
  Pol p = m.policy(r); m.fluxes(p, fl, q, dt, dx, dir);
  for (int k = 0; k < e.ncons; ++k) f[k] = fl.at(k, lo);
  return name(p);
}
inline std::string show(const Eq& e, const Vec& st) { std::string s; for (std::size_t i = 0; i < st.size(); i += std::size_t(e.ncomp)) s += e.show(st.data() + i); return s; }
inline double tol_of(const Method& m, const Eq& e) { return e.fam == Fam::reacting ? (m.order > 1 ? 2e-6 : 1e-10) : m.order > 1 ? 1e-10 : 1e-11; }
// overwrite the velocity of a complete state (energy adjusted; own formula)
inline void set_velocity(const Eq& e, double* q, int d, double u) {
  if (e.fam == Fam::burgers) { q[0] = u; return; }
  if (e.fam == Fam::advection) return;
  int i = e.idx("Momentum", d); double old = q[i]; q[i] = q[0] * u;
  if (e.is_euler()) q[e.idx("Energy")] += 0.5 * (q[i] * q[i] - old * old) / q[0];
}
inline Regime any(Rng& r, const Method& m) { return m.order > 1 ? Regime::mild : r.choose({Regime::mild, Regime::moderate, Regime::strong}); }
} // namespace md
