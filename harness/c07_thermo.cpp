// C07: perfect-gas states and conversions (PerfectGas, PerfectGasMix).
#include "thermo.hpp"
namespace {
template <typename E> void scalar(vm::Case& c) {
  constexpr int N = E::Rank(); auto g = make<E>(c); auto s = random(c, g); E& eq = g.eq();
  fub::Complete<E> q(eq), d(eq); load(g, s, q);
  auto ref = complete(g, s);
  fub::Conservative<E> w(eq); unflat(w, ref.data());
  // complete from conserved, every call form, stale destination
  int form = c.rng.range(0, 3); { std::vector<double> junk(ref.size(), c.rng.uniform(-3, 3)); unflat(d, junk.data()); }
  if (form == 0) eq.CompleteFromCons(d, w); else if (form == 1) fub::CompleteFromCons(eq, d, w); else if (form == 2) fub::CompleteFromCons(eq, d, q); else { d = q; fub::CompleteFromCons(eq, d, d); }
  same(c, g, s, d, "from-cons", "complete from conserved");
  { std::vector<double> x(ref.size(), 0.0); flat(d, x.data());
    for (std::size_t i = 0; i + 2 < ref.size(); ++i) c.checkf(x[i] == ref[i], "from-cons-changed", [&] { return vm::fmt("%s: completing changed conserved component %zu from %.17g to %.17g", g.name.c_str(), i, ref[i], x[i]); }); }
  // complete from primitive values
  fub::Array<double, N, 1> u; for (int k = 0; k < N; ++k) u[k] = s.u[k];
  if constexpr (is_mix<E>) {
    fub::Array<double, -1, 1> Y(g.ns), S(g.np); for (int k = 0; k < g.ns; ++k) Y[k] = s.Y[std::size_t(k)]; for (int k = 0; k < g.np; ++k) S[k] = s.S[std::size_t(k)];
    auto z = eq.CompleteFromPrim(s.rho, u, s.p, Y, S); same(c, g, s, z, "from-prim", "complete from density, velocity, pressure");
  } else { auto z = eq.CompleteFromPrim(s.rho, u, s.p); same(c, g, s, z, "from-prim", "complete from density, velocity, pressure"); }
  // primitive and back
  fub::Primitive<E> prim(eq); fub::PrimFromComplete(eq, prim, q);
  near(c, prim.density, s.rho, s.rho, "primitive", "primitive density"); near(c, prim.pressure, s.p, s.p, "primitive", "primitive pressure");
  double um = std::sqrt(2 * kin(s) / s.rho);
  for (int k = 0; k < N; ++k) near(c, prim.velocity[k], s.u[k], um, "primitive", "primitive velocity");
  if constexpr (is_mix<E>) {
    for (int k = 0; k < g.ns; ++k) near(c, prim.species[k], s.Y[std::size_t(k)], 1, "primitive", "primitive species");
    for (int k = 0; k < g.np; ++k) near(c, prim.passive_scalars[k], s.S[std::size_t(k)], 2, "primitive", "primitive passive scalar");
  }
  fub::Complete<E> back(eq); fub::CompleteFromPrim(eq, back, prim); same(c, g, s, back, "primitive-round-trip", "complete -> primitive -> complete");
  // derived quantities
  auto v = eq.Velocity(q); for (int k = 0; k < N; ++k) near(c, v[k], s.u[k], um, "velocity", "velocity");
  near(c, eq.Machnumber(q), um / sound(g, s), um / sound(g, s), "mach", "Mach number");
  double T = s.p / s.rho; if constexpr (!is_mix<E>) T /= g.R;
  near(c, eq.Temperature(q), T, T, "temperature", "temperature");
  near(c, fub::euler::Gamma(eq, q), g.gamma, 1, "cpo", "euler::Gamma");
  near(c, fub::euler::Density(eq, q), s.rho, s.rho, "cpo", "euler::Density");
  near(c, fub::euler::Energy(eq, q), energy(g, s), energy(g, s), "cpo", "euler::Energy");
  near(c, fub::euler::Pressure(eq, q), s.p, s.p, "cpo", "euler::Pressure");
  near(c, fub::euler::SpeedOfSound(eq, q), sound(g, s), sound(g, s), "cpo", "euler::SpeedOfSound");
  auto cm = fub::euler::Momentum(eq, q); auto cv = fub::euler::Velocity(eq, q);
  for (int k = 0; k < N; ++k) {
    near(c, cm[k], s.rho * s.u[k], s.rho * um, "cpo", "euler::Momentum"); near(c, fub::euler::Momentum(eq, q, k), s.rho * s.u[k], s.rho * um, "cpo", "euler::Momentum(d)");
    near(c, cv[k], s.u[k], um, "cpo", "euler::Velocity"); near(c, fub::euler::Velocity(eq, q, k), s.u[k], um, "cpo", "euler::Velocity(d)");
  }
  near(c, fub::euler::KineticEnergy(q.density, q.momentum), kin(s), kin(s), "cpo", "euler::KineticEnergy");
  near(c, fub::euler::MaSq(eq), g.msq, g.msq, "cpo", "euler::MaSq");
  if constexpr (is_mix<E>) {
    const double E_ = energy(g, s), e = s.p / (g.gamma - 1) / s.rho;
    near(c, fub::euler::InternalEnergy(eq, q), e, E_ / s.rho, "internal-energy", "internal energy of a complete state");
    near(c, fub::euler::Temperature(eq, q), T, T, "temperature", "euler::Temperature");
    near(c, fub::euler::TotalEnthalpy(eq, q), (E_ + s.p) / s.rho, (E_ + s.p) / s.rho, "cpo", "euler::TotalEnthalpy");
    near(c, fub::euler::Pressure(eq, w), s.p, s.p + (g.gamma - 1) * E_, "pressure-of-cons", "euler::Pressure of a conservative state");
    for (int k = 0; k < g.ns; ++k) near(c, fub::euler::Species(eq, q, k), s.rho * s.Y[std::size_t(k)], s.rho, "cpo", "euler::Species");
    // kinetic state and back
    fub::KineticState<E> kin_(eq); fub::euler::KineticStateFromComplete(eq, kin_, q);
    near(c, kin_.density, s.rho, s.rho, "kinetic", "kinetic density"); near(c, kin_.temperature, T, T, "kinetic", "kinetic temperature");
    near(c, fub::euler::InternalEnergy(eq, kin_), e, e, "internal-energy", "internal energy of a kinetic state"); near(c, fub::euler::Pressure(eq, kin_), s.p, s.p, "kinetic", "pressure of a kinetic state");
    double sum = 0; for (int k = 0; k <= g.ns; ++k) { sum += kin_.mole_fractions[k]; c.checkf(kin_.mole_fractions[k] >= 0, "kinetic-fractions", [&] { return vm::fmt("fraction %d is %.17g", k, double(kin_.mole_fractions[k])); }); if (k < g.ns) near(c, kin_.mole_fractions[k], s.Y[std::size_t(k)], 1, "kinetic-fractions", "kinetic fraction"); }
    near(c, sum, 1, 1, "kinetic-fractions", "sum of kinetic fractions");
    fub::Complete<E> z(eq); fub::euler::CompleteFromKineticState(eq, z, kin_, u); same(c, g, s, z, "kinetic-round-trip", "complete -> kinetic -> complete");
    if (c.rng.coin(0.3)) { fub::euler::CompleteFromKineticState(eq, z, kin_); Phys s0 = s; s0.u[0] = s0.u[1] = s0.u[2] = 0; same(c, g, s0, z, "kinetic-round-trip", "kinetic state at rest"); }
    // change of velocity keeps everything else
    Phys s2 = s; for (int k = 0; k < N; ++k) s2.u[k] = c.rng.uniform(-2, 2) * sound(g, s);
    fub::Complete<E> m = q; fub::Array<double, N, 1> u2; for (int k = 0; k < N; ++k) u2[k] = s2.u[k];
    fub::euler::SetVelocity(eq, m, u2);
    { auto a = complete(g, s2), sc = scales(g, s2), so = scales(g, s); std::vector<double> x(a.size(), 0.0); flat(m, x.data());
      for (std::size_t i = 0; i < a.size(); ++i) c.checkf(std::abs(x[i] - a[i]) <= 1e-12 * (sc[i] + (int(i) == N + 1 ? so[i] : 0)), "set-velocity", [&] { return vm::fmt("%s SetVelocity: component %zu (%s) is %.17g, expected %.17g (Msq %g)", g.name.c_str(), i, g.ad->comps[i].var.c_str(), x[i], a[i], g.msq); }); }
  }
  c.event("conversions", 12);
  c.sig(vm::fmt("%s f%d s%d p%d m%d g%.2f u%d", g.name.c_str(), form, g.ns, g.np, g.msq != 1, g.gamma, um == 0 ? 0 : int(std::floor(std::log10(um / sound(g, s)) * 2))));
}

template <typename E> void lanes(vm::Case& c) {
  constexpr int N = E::Rank(); auto g = make<E>(c); E& eq = g.eq();
  std::vector<Phys> s; std::vector<double> q8; bool m[W]; int nq = g.ad->ncomp; q8.resize(std::size_t(nq) * W);
  int mode = c.rng.range(0, 2); unsigned bits = 0;
  for (int l = 0; l < W; ++l) {
    s.push_back(random(c, g)); auto q = complete(g, s.back()); m[l] = mode == 0 || c.rng.coin(0.6); bits |= unsigned(m[l]) << l;
    bool zero = !m[l] && c.rng.coin(); for (int i = 0; i < nq; ++i) q8[std::size_t(i * W + l)] = zero ? 0.0 : q[std::size_t(i)];
  }
  fub::CompleteArray<E> q(eq); unflat8(q, q8.data()); fub::ConservativeArray<E> w(eq); unflat8(w, q8.data());
  auto judge = [&](const fub::CompleteArray<E>& z, bool masked, const char* key) {
    std::vector<double> x(q8.size(), 0.0); flat8(z, x.data());
    for (int l = 0; l < W; ++l) {
      if (!m[l]) { if (masked) for (int i = 0; i < nq; ++i) c.checkf(x[std::size_t(i * W + l)] == 0.0, "masked-lane", [&] { return vm::fmt("%s %s: closed lane %d holds %g in component %d", g.name.c_str(), key, l, x[std::size_t(i * W + l)], i); }); continue; }
      auto a = complete(g, s[std::size_t(l)]), sc = scales(g, s[std::size_t(l)]);
      for (int i = 0; i < nq; ++i) c.checkf(std::abs(x[std::size_t(i * W + l)] - a[std::size_t(i)]) <= 1e-12 * sc[std::size_t(i)], key, [&] { return vm::fmt("%s lane %d: component %d (%s) is %.17g, expected %.17g", g.name.c_str(), l, i, g.ad->comps[std::size_t(i)].var.c_str(), x[std::size_t(i * W + l)], a[std::size_t(i)]); });
    }
  };
  fub::CompleteArray<E> z(eq);
  if (mode == 0) {
    if (c.rng.coin()) fub::CompleteFromCons(eq, z, w); else eq.CompleteFromCons(z, w);
    judge(z, false, "from-cons-lanes");
  } else { eq.CompleteFromCons(z, w, to_mask(m)); judge(z, true, "from-cons-masked"); if (c.rng.coin()) { fub::CompleteFromCons(eq, z, w, to_mask(m)); judge(z, true, "from-cons-masked"); } }
  if (mode == 0) {
    fub::PrimitiveArray<E> prim(eq); fub::PrimFromComplete(eq, prim, q);
    for (int l = 0; l < W; ++l) {
      auto& a = s[std::size_t(l)]; double um = std::sqrt(2 * kin(a) / a.rho);
      near(c, prim.density(l), a.rho, a.rho, "primitive-lanes", "density"); near(c, prim.pressure(l), a.p, a.p, "primitive-lanes", "pressure");
      for (int k = 0; k < N; ++k) near(c, prim.velocity(k, l), a.u[k], um, "primitive-lanes", "velocity");
    }
    fub::CompleteFromPrim(eq, z, prim); judge(z, false, "primitive-round-trip-lanes");
    auto v = eq.Velocity(q); auto T = eq.Temperature(q);
    for (int l = 0; l < W; ++l) {
      auto& a = s[std::size_t(l)]; double um = std::sqrt(2 * kin(a) / a.rho), t = a.p / a.rho; if constexpr (!is_mix<E>) t /= g.R;
      for (int k = 0; k < N; ++k) near(c, v(k, l), a.u[k], um, "velocity-lanes", "velocity");
      near(c, T(l), t, t, "temperature-lanes", "temperature");
    }
    if constexpr (is_mix<E>) {
      fub::KineticStateArray<E> kin_(eq); fub::euler::KineticStateFromComplete(eq, kin_, q);
      fub::Array<double, N> u; for (int k = 0; k < N; ++k) for (int l = 0; l < W; ++l) u(k, l) = s[std::size_t(l)].u[k];
      for (int l = 0; l < W; ++l) { double sum = 0; for (int k = 0; k <= g.ns; ++k) { sum += kin_.mole_fractions(k, l); if (k < g.ns) near(c, kin_.mole_fractions(k, l), s[std::size_t(l)].Y[std::size_t(k)], 1, "kinetic-lanes", "fraction"); } near(c, sum, 1, 1, "kinetic-lanes", "sum of fractions"); }
      fub::euler::CompleteFromKineticState(eq, z, kin_, u); judge(z, false, "kinetic-round-trip-lanes");
      auto e = fub::euler::InternalEnergy(eq, q); for (int l = 0; l < W; ++l) near(c, e(l), s[std::size_t(l)].p / (g.gamma - 1) / s[std::size_t(l)].rho, energy(g, s[std::size_t(l)]) / s[std::size_t(l)].rho, "internal-energy-lanes", "internal energy");
      auto h = fub::euler::TotalEnthalpy(eq, q); for (int l = 0; l < W; ++l) { double t = (energy(g, s[std::size_t(l)]) + s[std::size_t(l)].p) / s[std::size_t(l)].rho; near(c, h(l), t, t, "cpo-lanes", "total enthalpy"); }
    }
  } else if constexpr (!is_mix<E>) {
    fub::Array1d rho, p; fub::Array<double, N> u;
    for (int l = 0; l < W; ++l) { rho(l) = s[std::size_t(l)].rho; p(l) = s[std::size_t(l)].p; for (int k = 0; k < N; ++k) u(k, l) = s[std::size_t(l)].u[k]; }
    if (mode == 1) { z = eq.CompleteFromPrim(rho, u, p, to_mask(m)); judge(z, true, "from-prim-masked"); }
    else { z = eq.CompleteFromPrim(rho, u, p); judge(z, false, "from-prim-lanes"); }
  }
  c.event("lanes", W);
  c.sig(vm::fmt("%s m%d %x s%d p%d q%d", g.name.c_str(), mode, bits, g.ns, g.np, g.msq != 1));
}

// ---- rotation and reflection
template <int N> Eigen::Matrix<double, N, 1> unit(Rng& r) {
  Eigen::Matrix<double, N, 1> n; int k = r.range(0, 3);
  if (k == 0) { n.setZero(); n[r.range(0, N - 1)] = r.coin() ? 1 : -1; return n; }
  do { for (int d = 0; d < N; ++d) n[d] = r.uniform(-1, 1); if (k == 1 && N > 1) n[r.range(0, N - 1)] = 0; } while (n.norm() < 1e-3);
  n /= n.norm(); return n;
}
template <typename S> std::vector<double> all(const S& s, int n) { std::vector<double> v(std::size_t(n), 0.0); flat(s, v.data()); return v; }
template <typename E, template <typename> class St> void transform(vm::Case& c, Gas<E>& g, const Phys& s, const char* kind) {
  constexpr int N = E::Rank(); E& eq = g.eq(); auto ref = complete(g, s);
  constexpr bool cons = std::is_same_v<St<E>, fub::Conservative<E>>; int n = cons ? int(ref.size()) - 2 : int(ref.size());
  St<E> q(eq), a(eq), b(eq); unflat(q, ref.data()); std::vector<double> junk(ref.size(), 7.5); unflat(a, junk.data()); unflat(b, junk.data());
  double mom = s.rho * std::sqrt(2 * kin(s) / s.rho), t = 1e-12 * mom;
  auto scalars_kept = [&](const St<E>& z, const char* what) {
    auto x = all(z, n); for (int i = 0; i < n; ++i) if (i < 1 || i > N) c.checkf(x[std::size_t(i)] == ref[std::size_t(i)], "scalar-changed", [&] { return vm::fmt("%s %s %s changed component %d from %.17g to %.17g", g.name.c_str(), kind, what, i, ref[std::size_t(i)], x[std::size_t(i)]); });
  };
  auto vec = [&](const St<E>& z) { Eigen::Matrix<double, N, 1> v; for (int d = 0; d < N; ++d) v[d] = z.momentum[d]; return v; };
  auto close = [&](const Eigen::Matrix<double, N, 1>& x, const Eigen::Matrix<double, N, 1>& y, const char* key, const char* what) { c.checkf((x - y).norm() <= t, key, [&] { return vm::fmt("%s %s %s: momentum off by %g (size %g)", g.name.c_str(), kind, what, (x - y).norm(), mom); }); };
  const auto m = vec(q); auto nrm = unit<N>(c.rng);
  bool inplace = c.rng.coin(0.3); if (inplace) { a = q; fub::Reflect(a, a, nrm, eq); } else fub::Reflect(a, q, nrm, eq);
  scalars_kept(a, "reflection"); close(vec(a), m - 2 * m.dot(nrm) * nrm, "reflection", "reflection");
  c.checkf(std::abs(vec(a).norm() - m.norm()) <= t, "length", [&] { return std::string(g.name + " reflection changes the length of the momentum"); });
  fub::Reflect(b, a, nrm, eq); scalars_kept(b, "double reflection"); close(vec(b), m, "reflection-inverse", "double reflection");
  if constexpr (N > 1) {
    auto e1 = unit<N>(c.rng), e2 = unit<N>(c.rng); if (c.rng.coin(0.1)) e2 = -e1; if (c.rng.coin(0.15)) { Eigen::Matrix<double, N, 1> z = unit<N>(c.rng) * c.rng.logu(1e-17, 0.3) - e1; e2 = z / z.norm(); if (c.rng.coin()) e1 = -e2, e2 = -e1 + unit<N>(c.rng) * 1e-16; } // (almost) opposite directions
    auto R = fub::MakeRotation(e1, e2);
    c.checkf((R * R.transpose() - Eigen::Matrix<double, N, N>::Identity()).norm() <= 1e-11, "rotation-matrix", [&] { return std::string(g.name + " MakeRotation is not orthogonal"); });
    c.checkf((R * e1 - e2).norm() <= 1e-11, "rotation-matrix", [&] { return std::string(g.name + " MakeRotation does not map the first on the second vector"); });
    if (inplace) { a = q; fub::Rotate(a, a, R, eq); } else fub::Rotate(a, q, R, eq);
    scalars_kept(a, "rotation"); Eigen::Matrix<double, N, 1> want = Eigen::Matrix<double, N, 1>::Zero(); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) want[i] += R(i, j) * m[j];
    t *= 20; close(vec(a), want, "rotation", "rotation");
    Eigen::Matrix<double, N, N> Rt = R.transpose(); fub::Rotate(b, a, Rt, eq); scalars_kept(b, "rotation back"); close(vec(b), m, "rotation-inverse", "rotation and back");
    c.checkf(std::abs(vec(a).norm() - m.norm()) <= t, "length", [&] { return std::string(g.name + " rotation changes the length of the momentum"); });
  }
  c.event("transformed states", 3);
  c.sig(vm::fmt("%s %s i%d s%d n%.1f/%.1f", g.name.c_str(), kind, inplace, g.ns, nrm[0], N > 1 ? nrm[N - 1] : 0.0));
}
template <typename E> void transforms(vm::Case& c) {
  auto g = make<E>(c); auto s = random(c, g); constexpr int N = E::Rank();
  if (c.rng.coin()) transform<E, fub::Complete>(c, g, s, "complete"); else transform<E, fub::Conservative>(c, g, s, "conservative");
  if constexpr (!is_mix<E>) {
    fub::Primitive<E> p(g.eq()), a(g.eq()), b(g.eq()); p.density = s.rho; p.pressure = s.p; Eigen::Matrix<double, N, 1> u; for (int d = 0; d < N; ++d) u[d] = p.velocity[d] = s.u[d];
    auto n = unit<N>(c.rng); fub::Reflect(a, p, n, g.eq()); fub::Reflect(b, a, n, g.eq());
    Eigen::Matrix<double, N, 1> w = u - 2 * u.dot(n) * n; double t = 1e-12 * u.norm();
    bool ok = a.density == p.density && a.pressure == p.pressure && b.density == p.density && b.pressure == p.pressure;
    for (int d = 0; d < N; ++d) ok = ok && std::abs(a.velocity[d] - w[d]) <= t && std::abs(b.velocity[d] - u[d]) <= t;
    c.checkf(ok, "primitive-reflection", [&] { return std::string(g.name + ": reflecting a primitive state is not the mirror image"); });
  }
}

#define BOTH(fn) switch (c.rng.range(0, 5)) { case 0: fn<fub::PerfectGas<1>>(c); break; case 1: fn<fub::PerfectGas<2>>(c); break; case 2: fn<fub::PerfectGas<3>>(c); break; case 3: fn<fub::PerfectGasMix<1>>(c); break; case 4: fn<fub::PerfectGasMix<2>>(c); break; default: fn<fub::PerfectGasMix<3>>(c); }
ORACLE("scalar", 60000, 6000000) { BOTH(scalar) }
ORACLE("lanes", 20000, 2000000) { BOTH(lanes) }
ORACLE("transform", 60000, 6000000) { BOTH(transforms) }
ORACLE("isentropic", 60000, 6000000) { switch (c.rng.range(0, 2)) { case 0: isentropic<1>(c); break; case 1: isentropic<2>(c); break; default: isentropic<3>(c); } }
} // namespace
