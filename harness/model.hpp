// Type-erased access to the equations and flux methods of the code under
// test.  All data crosses this interface as flat double arrays:
//   scalar state   q[c]
//   array state    q[c * 8 + lane]
// components are ordered as the framework orders them (conservative first).
#pragma once
#include "vm.hpp"
#include <memory>
namespace md {
using vm::Rng;
constexpr int W = 8;
using Vec = std::vector<double>;
using Idx = std::array<std::ptrdiff_t, 3>;
enum class Pol { seq, simd, omp, ompsimd, dflt };
inline const char* name(Pol p) { const char* n[] = {"seq", "simd", "omp", "ompsimd", "default"}; return n[int(p)]; }
enum class Fam { advection, burgers, shallow, gas, gasmix, reacting };

struct Comp { std::string var; int i; };

// Patch data with a guard frame.  [lo,hi) is the viewed box; the allocation is
// larger and everything outside of the viewed box carries a guard pattern.
struct Field {
  int rank = 1, ncomp = 1;
  Idx lo{}, hi{}, alo{}, ahi{}; // viewed and allocated boxes
  std::ptrdiff_t cstride = 0;
  Vec buf;
  static double guard() { std::uint64_t b = 0x7ff8dead00c0ffeeULL; double d; std::memcpy(&d, &b, 8); return d; }
  static bool is_guard(double d) { std::uint64_t b; std::memcpy(&b, &d, 8); return b == 0x7ff8dead00c0ffeeULL; }
  Field() = default;
  Field(int rank_, int ncomp_, Idx lo_, Idx hi_, int pad_lo, int pad_hi, std::ptrdiff_t cgap) : rank(rank_), ncomp(ncomp_), lo(lo_), hi(hi_) {
    std::ptrdiff_t n = 1;
    for (int d = 0; d < 3; ++d) {
      if (d >= rank) { lo[d] = 0; hi[d] = 1; }
      alo[d] = d < rank ? lo[d] - pad_lo : 0; ahi[d] = d < rank ? hi[d] + pad_hi : 1;
      n *= ahi[d] - alo[d];
    }
    cstride = n + cgap;
    buf.assign(std::size_t(cstride) * ncomp + 16, guard());
  }
  std::ptrdiff_t stride(int d) const { return d == 0 ? 1 : d == 1 ? ahi[0] - alo[0] : (ahi[0] - alo[0]) * (ahi[1] - alo[1]); }
  std::ptrdiff_t off(Idx i) const { return (i[0] - alo[0]) + stride(1) * (i[1] - alo[1]) + stride(2) * (i[2] - alo[2]); }
  double* ptr(int c) { return buf.data() + c * cstride + off(lo); }
  double& at(int c, Idx i) { return buf[std::size_t(c * cstride + off(i))]; }
  double at(int c, Idx i) const { return buf[std::size_t(c * cstride + off(i))]; }
  template <typename F> void each(F f) const {
    for (auto k = lo[2]; k < hi[2]; ++k) for (auto j = lo[1]; j < hi[1]; ++j) for (auto i = lo[0]; i < hi[0]; ++i) f(Idx{i, j, k});
  }
  long cells() const { long n = 1; for (int d = 0; d < rank; ++d) n *= long(hi[d] - lo[d]); return n; }
  void get(Idx i, double* q) const { for (int c = 0; c < ncomp; ++c) q[c] = at(c, i); }
  void set(Idx i, const double* q) { for (int c = 0; c < ncomp; ++c) at(c, i) = q[c]; }
  // every value outside of the viewed box still carries the guard pattern
  bool guards_intact() const {
    std::vector<char> in(buf.size(), 0);
    for (int c = 0; c < ncomp; ++c) each([&](Idx i) { in[std::size_t(c * cstride + off(i))] = 1; });
    for (std::size_t i = 0; i < buf.size(); ++i) if (!in[i] && !is_guard(buf[i])) return false;
    return true;
  }
};

enum class Regime { mild, moderate, strong };

struct Eq {
  std::string name; Fam fam; int rank = 1, ncons = 0, ncomp = 0;
  std::vector<Comp> comps;
  double gamma = 1.4, Rspec = 287.058, gravity = 10.0; std::array<double, 2> vel{};
  int nspecies = 0, npassive = 0;
  bool novac = false; // random states never generate vacuum between each other
  virtual ~Eq() = default;
  // -------- the code under test
  virtual void flux(const double* q, int dir, double* f) = 0;
  virtual bool flux8(const double* q, int dir, double* f) { return false; }
  virtual bool fluxm(const double* q, const bool* mask, int dir, double* f) { return false; }
  virtual void complete(const double* cons, double* q) = 0;
  virtual bool complete8(const double* cons, double* q) { return false; }
  virtual bool completem(const double* cons, const bool* mask, double* q) { return false; }
  virtual void complete_view(Pol, Field& q, const Field& cons) = 0;
  // valid random complete state (built by the harness's own formulas; for the
  // reacting gas through the reactor)
  virtual void random(Rng& r, Regime reg, double* q) = 0;
  // complete state with the same thermodynamics but velocity u (own formulas)
  // -------- closed forms of the harness
  int idx(const char* var, int i = 0) const { for (int c = 0; c < ncomp; ++c) if (comps[c].var == var && comps[c].i == i) return c; return -1; }
  bool is_euler() const { return fam == Fam::gas || fam == Fam::gasmix || fam == Fam::reacting; }
  double velocity(const double* q, int d) const {
    if (fam == Fam::advection) return vel[d];
    if (fam == Fam::burgers) return q[0];
    return q[idx("Momentum", d)] / q[0];
  }
  double sound(const double* q) const {
    if (fam == Fam::advection || fam == Fam::burgers) return 0.0;
    if (fam == Fam::shallow) return std::sqrt(gravity * q[0]);
    return q[idx("SpeedOfSound")];
  }
  double speed(const double* q, int d) const { return std::abs(velocity(q, d)) + sound(q); }
  void exact_flux(const double* q, int dir, double* f) const {
    const double u = velocity(q, dir);
    if (fam == Fam::burgers) { f[0] = 0.5 * q[0] * q[0]; return; }
    for (int c = 0; c < ncons; ++c) f[c] = u * q[c];
    if (fam == Fam::shallow) f[idx("Momentum", dir)] += 0.5 * gravity * q[0] * q[0];
    if (is_euler()) { double p = q[idx("Pressure")]; f[idx("Momentum", dir)] += p; f[idx("Energy")] += u * p; }
  }
  // the mirror image of q with respect to direction d
  void mirror(double* q, int d) const { int m = idx("Momentum", d); if (m >= 0) q[m] = -q[m]; if (fam == Fam::burgers) q[0] = -q[0]; }
  void swap_axes(double* q, int a, int b) const { int i = idx("Momentum", a), j = idx("Momentum", b); if (i >= 0 && j >= 0) std::swap(q[i], q[j]); }
  // physically admissible: positive density, pressure, species; own equation of state
  bool admissible(const double* q) const {
    for (int c = 0; c < ncomp; ++c) if (!std::isfinite(q[c])) return false;
    if (fam == Fam::shallow) return q[0] > 0;
    if (is_euler()) return q[0] > 0 && q[idx("Pressure")] > 0;
    return true;
  }
  std::string show(const double* q, int n = 0) const { std::string s = "("; for (int c = 0; c < (n ? n : ncomp); ++c) s += vm::fmt("%s%s=%.17g", c ? " " : "", (comps[c].var + (comps[c].i ? std::to_string(comps[c].i) : "")).c_str(), q[c]); return s + ")"; }
};

struct Method {
  std::string name; int width = 1; int order = 1; bool masked = false, masked_dt = false;
  bool has1 = true;        // the cell-by-cell entry points are implemented
  bool agree = true;       // cell-by-cell and vectorised form use the same limiter
  bool has_dt8 = true;     // a vectorised stable time step exists (the exact Riemann solver of the perfect gas has none)
  bool muscl = false;      // reconstructs from more than the two neighbours
  bool prim = false;       // reconstructs primitive variables
  virtual ~Method() = default;
  virtual Eq& eq() = 0;
  Pol policy(Rng& r) const { return has1 ? r.choose({Pol::seq, Pol::simd, Pol::simd, Pol::dflt, Pol::omp, Pol::ompsimd}) : r.choose({Pol::simd, Pol::ompsimd}); }
  virtual void flux(const double* st, double dt, double dx, int dir, double* f) = 0;             // st[2w][ncomp]
  virtual void flux8(const double* st, double dt, double dx, int dir, double* f) = 0;            // st[2w][ncomp][8]
  virtual void fluxm(const double* st, const double* face, const double* vol, double dt, double dx, int dir, double* f) {} // vol[2w][8]
  virtual void fluxes(Pol p, Field& f, const Field& states, double dt, double dx, int dir) = 0;
  virtual double dt1(const double* st, double dx, int dir) = 0;
  virtual void dt8(const double* st, double dx, int dir, double* out) = 0;
  virtual void dtm(const double* st, const double* face, const double* vol, double dx, int dir, double* out) {}
  virtual double dts(Pol p, const Field& states, double dx, int dir) = 0;
};

// random stencil of 2w cells; kind 0 independent, 1 uniform, 2 one jump, 3 smooth, 4 pairs
inline int random_stencil(Rng& r, Method& m, Regime reg, Vec& st, int n = 0) {
  Eq& e = m.eq(); if (!n) n = 2 * m.width; st.assign(std::size_t(n * e.ncomp), 0.0);
  int kind = r.range(0, 4), cut = r.range(1, n - 1); Vec a(std::size_t(e.ncomp)), b(a);
  e.random(r, reg, a.data()); e.random(r, reg, b.data());
  if (e.fam == Fam::gas || e.fam == Fam::gasmix || e.fam == Fam::shallow || e.fam == Fam::reacting) { /* complete states are never interpolated */ if (kind == 3) kind = 0; }
  for (int i = 0; i < n; ++i) {
    double* q = st.data() + i * e.ncomp;
    switch (kind) {
    case 1: std::copy(a.begin(), a.end(), q); break;
    case 2: std::copy((i < cut ? a : b).begin(), (i < cut ? a : b).end(), q); break;
    case 4: if (i % 2 == 0 || n == 2) e.random(r, reg, q); else std::copy(q - e.ncomp, q, q); break;
    default: e.random(r, reg, q);
    }
  }
  return kind;
}
// magnitude of flux differences that rounding may cause, per conserved variable
inline Vec flux_scale(const Method& m, const Eq& e, const double* st, int n, int dir) {
  Vec s(std::size_t(e.ncons)), f(std::size_t(e.ncons));
  double smax = 0; for (int i = 0; i < n; ++i) smax = std::max(smax, e.speed(st + i * e.ncomp, dir));
  double mom = 0;
  for (int i = 0; i < n; ++i) { const double* q = st + i * e.ncomp; e.exact_flux(q, dir, f.data()); for (int c = 0; c < e.ncons; ++c) { s[c] = std::max(s[c], std::abs(f[c]) + smax * std::abs(q[c])); if (e.comps[c].var == "Momentum") mom = std::max(mom, s[c]); } if (e.is_euler()) s[e.idx("Energy")] = std::max(s[e.idx("Energy")], smax * q[e.idx("Pressure")] + 0.5 * smax * smax * smax * q[0]); mom = std::max(mom, smax * smax * (e.fam == Fam::burgers || e.fam == Fam::advection ? 0 : q[0])); }
  for (int c = 0; c < e.ncons; ++c) if (e.comps[c].var == "Momentum") s[c] = mom;
  return s;
}
struct Factory {
  std::string name;
  int rank;
  Fam fam;
  std::function<std::unique_ptr<Method>(Rng&)> make;
};
inline std::vector<Factory>& methods() { static std::vector<Factory> m; return m; }
} // namespace md
