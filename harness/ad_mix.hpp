#pragma once
#include "ad_gas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
namespace md {
template <int N> std::unique_ptr<EqAdapter<fub::PerfectGasMix<N>>> make_mix(Rng& r) {
  using E = fub::PerfectGasMix<N>;
  double gamma = r.choose({1.28, 1.4, 5.0 / 3.0, 1.2}), R = r.choose({287.4, 1.0}); bool si = r.coin(0.3);
  int ns = r.range(0, 4), np = r.range(0, 2);
  auto p = std::make_unique<EqAdapter<E>>("PerfectGasMix<" + std::to_string(N) + ">", Fam::gasmix, E(fub::ComputeConstants(R, gamma), ns, np));
  p->gamma = gamma; p->Rspec = R; p->nspecies = ns; p->npassive = np;
  p->rnd = [gamma, si, ns, np](EqAdapter<E>&, Rng& r, Regime reg, double* q) {
    GasPrim g = random_prim(r, reg, si ? 101325. : 1., si ? 1.2 : 1.);
    double k = 0; int c = 0; q[c++] = g.rho;
    for (int d = 0; d < N; ++d) { q[c++] = g.rho * g.u[d]; k += 0.5 * g.rho * g.u[d] * g.u[d]; }
    q[c++] = g.p / (gamma - 1) + k;
    double y[8] = {}, s = 0; for (int i = 0; i < ns; ++i) s += y[i] = r.coin(0.2) ? 0.0 : r.u01();
    if (s == 0 && ns) s = y[0] = 1;
    for (int i = 0; i < ns; ++i) q[c++] = g.rho * (y[i] / s);
    for (int i = 0; i < np; ++i) q[c++] = g.rho * r.uniform(-1, 1);
    q[c++] = g.p; q[c++] = std::sqrt(gamma * g.p / g.rho);
  };
  return p;
}
template <int N, typename FM> void reg_mix(const char* name, int order, bool prim = false) {
  using E = fub::PerfectGasMix<N>;
  reg<E, FM, true>(std::string(name) + "/PerfectGasMix" + std::to_string(N), Fam::gasmix, [](Rng& r) { return make_mix<N>(r); }, [](const E& e) { return FM(e); }, order, prim);
}
template <int N> void reg_mix_all() {
  using G = fub::PerfectGasMix<N>;
  reg_mix<N, fub::perfect_gas::HllemMethod<G, true>>("HllemLarrouturou", 1);
  reg_mix<N, fub::perfect_gas::HllemMethod<G, false>>("Hllem", 1);
  using H = fub::Hll<G, fub::EinfeldtSignalVelocities<G>>;
  reg_mix<N, fub::FluxMethod<H>>("Hlle", 1);
  using namespace fub;
  reg_mix<N, FluxMethod<MusclHancock2<G, ConservativeGradient<G, CentralDifferenceGradient<VanLeerLimiter>>, ConservativeReconstruction<G>, perfect_gas::Hllem<G, true>>>>("Muscl2ConsVanLeer", 2);
  reg_mix<N, FluxMethod<MusclHancock2<G, PrimitiveGradient<G>, PrimitiveReconstruction<G>, H>>>("Muscl2PrimMinMod", 2, true);
  reg_mix<N, FluxMethod<MusclHancock2<G, CharacteristicsGradient<G, CentralDifferenceGradient<VanLeerLimiter>>, CharacteristicsReconstruction<G>, perfect_gas::Hllem<G, true>>>>("Muscl2CharVanLeer", 2, true);
}
} // namespace md
