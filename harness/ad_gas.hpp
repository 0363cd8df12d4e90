#pragma once
#include "adapter.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/equations/perfect_gas/GodunovMethod.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"
namespace md {
struct GasPrim { double rho, p; std::array<double, 3> u{}; };
inline GasPrim random_prim(Rng& r, Regime reg, double p0, double rho0) {
  GasPrim g; double um;
  switch (reg) {
  case Regime::mild: g.rho = r.uniform(0.8, 1.2); g.p = r.uniform(0.8, 1.2); um = 0.3; break;
  case Regime::moderate: g.rho = r.logu(0.3, 3); g.p = r.logu(0.3, 3); um = 1; break;
  default: g.rho = r.logu(0.05, 20); g.p = r.logu(0.02, 50); um = 4; break;
  }
  for (auto& v : g.u) v = r.coin(0.12) ? 0.0 : r.uniform(-um, um);
  const double us = std::sqrt(p0 / rho0);
  g.rho *= rho0; g.p *= p0; for (auto& v : g.u) v *= us;
  return g;
}
template <int N> std::unique_ptr<EqAdapter<fub::PerfectGas<N>>> make_gas(Rng& r) {
  fub::PerfectGas<N> e;
  double gamma = r.choose({1.4, 1.4, 5.0 / 3.0, 1.2, 1.1}); bool si = r.coin(0.3);
  e.gamma = gamma; e.gamma_minus_1_inv = 1 / (gamma - 1);
  e.gamma_array_ = fub::Array1d::Constant(gamma); e.gamma_minus_1_inv_array_ = fub::Array1d::Constant(1 / (gamma - 1));
  if (r.coin(0.3)) e.Rspec = 1.0;
  auto p = std::make_unique<EqAdapter<fub::PerfectGas<N>>>("PerfectGas<" + std::to_string(N) + ">", Fam::gas, e);
  p->gamma = gamma; p->Rspec = e.Rspec;
  p->rnd = [gamma, si](EqAdapter<fub::PerfectGas<N>>& a, Rng& r, Regime reg, double* q) {
    GasPrim g = random_prim(r, reg, si ? 101325. : 1., si ? 1.2 : 1.);
    if (a.novac) for (auto& v : g.u) { double m = 0.8 * 2 * std::sqrt(gamma * g.p / g.rho) / (gamma - 1); v = std::max(-m, std::min(m, v)); }
    double k = 0; int c = 0; q[c++] = g.rho;
    for (int d = 0; d < N; ++d) { q[c++] = g.rho * g.u[d]; k += 0.5 * g.rho * g.u[d] * g.u[d]; }
    q[c++] = g.p / (gamma - 1) + k; q[c++] = g.p; q[c++] = std::sqrt(gamma * g.p / g.rho);
  };
  return p;
}
template <int N, typename FM> void reg_gas(const char* name, int order, bool prim = false) {
  reg<fub::PerfectGas<N>, FM, true>(std::string(name) + "/PerfectGas" + std::to_string(N), Fam::gas, [](Rng& r) { return make_gas<N>(r); }, [](const fub::PerfectGas<N>& e) { return FM(e); }, order, prim);
}
template <int N> void reg_gas_all() {
  using G = fub::PerfectGas<N>;
  reg_gas<N, fub::FluxMethod<fub::Godunov<G>>>("Godunov", 1);
  reg_gas<N, fub::perfect_gas::HllemMethod<G, true>>("HllemLarrouturou", 1);
  reg_gas<N, fub::perfect_gas::HllemMethod<G, false>>("Hllem", 1);
  reg_gas<N, fub::FluxMethod<fub::MusclHancock<G>>>("MusclHancock", 2);
  reg_gas<N, fub::FluxMethod<fub::perfect_gas::MusclHancockPrim<N>>>("MusclHancockPrim", 2, true);
  reg_gas<N, fub::FluxMethod<fub::perfect_gas::MusclHancockCharacteristic<N>>>("MusclHancockChar", 2, true);
  using H = fub::Hll<G, fub::EinfeldtSignalVelocities<G>>;
  reg_gas<N, fub::FluxMethod<H>>("Hlle", 1);
  using namespace fub;
  reg_gas<N, FluxMethod<MusclHancock2<G, ConservativeGradient<G>, ConservativeReconstruction<G>, H>>>("Muscl2ConsMinMod", 2);
  reg_gas<N, FluxMethod<MusclHancock2<G, PrimitiveGradient<G, CentralDifferenceGradient<VanLeerLimiter>>, PrimitiveReconstruction<G>, perfect_gas::Hllem<G, true>>>>("Muscl2PrimVanLeer", 2, true);
  reg_gas<N, FluxMethod<MusclHancock2<G, CharacteristicsGradient<G>, CharacteristicsReconstruction<G>, perfect_gas::Hllem<G, false>>>>("Muscl2CharMinMod", 2, true);
  if constexpr (N == 1) reg_gas<N, fub::perfect_gas::ThirdOrderRungeKuttaMethod<1>>("ThirdOrderRungeKutta", 3);
}
} // namespace md
