#pragma once
#include "ad_gas.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/ideal_gas_mix/HlleMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
namespace md {
inline void random_Y(Rng& r, std::vector<double>& y) {
  double s = 0; int kind = r.range(0, 3);
  for (auto& v : y) { v = kind == 0 ? r.u01() : kind == 1 ? (r.coin(0.3) ? r.u01() : 0.0) : 0.0; }
  if (kind >= 2) { y[r.range(0, int(y.size()) - 1)] = 1.0; if (kind == 3) y[r.range(0, int(y.size()) - 1)] += r.u01(); }
  for (double v : y) s += v;
  if (s == 0) { y[0] = 1; s = 1; }
  for (auto& v : y) v /= s;
}
template <int N> std::unique_ptr<EqAdapter<fub::IdealGasMix<N>>> make_igm(Rng&) {
  static const fub::Burke2012 mechanism{}; // reactors refer to their mechanism
  using E = fub::IdealGasMix<N>;
  auto p = std::make_unique<EqAdapter<E>>("IdealGasMix<" + std::to_string(N) + ">", Fam::reacting, E(fub::FlameMasterReactor(mechanism)));
  p->nspecies = p->eqn.GetReactor().GetNSpecies();
  p->rnd = [](EqAdapter<E>& a, Rng& r, Regime reg, double* q) {
    auto& R = a.eqn.GetReactor();
    std::vector<double> y(std::size_t(R.GetNSpecies())); random_Y(r, y);
    double T = reg == Regime::mild ? r.uniform(300, 400) : reg == Regime::moderate ? r.uniform(300, 1500) : r.uniform(300, 2400);
    double p = 1e5 * (reg == Regime::mild ? r.uniform(0.8, 1.2) : reg == Regime::moderate ? r.logu(0.3, 3) : r.logu(0.05, 20));
    double um = reg == Regime::mild ? 100 : reg == Regime::moderate ? 400 : 1500;
    R.SetTemperature(T); R.SetMassFractions(y); R.SetTemperature(T); R.SetPressure(p);
    fub::Array<double, N, 1> u; for (int d = 0; d < N; ++d) u[d] = r.coin(0.12) ? 0.0 : r.uniform(-um, um);
    a.eqn.CompleteFromReactor(a.comp, u);
    flat(a.comp, q);
  };
  return p;
}
template <int N, typename FM> void reg_igm(const char* name, int order, bool prim = false) {
  using E = fub::IdealGasMix<N>;
  reg<E, FM, true>(std::string(name) + "/IdealGasMix" + std::to_string(N), Fam::reacting, [](Rng& r) { return make_igm<N>(r); }, [](const E& e) { return FM(e); }, order, prim);
}
template <int N> void reg_igm_all() {
  using G = fub::IdealGasMix<N>;
  using H = fub::Hll<G, fub::EinfeldtSignalVelocities<G>>;
  reg_igm<N, fub::FluxMethod<H>>("Hlle", 1);
  reg_igm<N, fub::FluxMethod<fub::ideal_gas::MusclHancockPrimitive<N>>>("MusclHancockPrim", 2, true);
  reg_igm<N, fub::FluxMethod<fub::ideal_gas::MusclHancockCharacteristic<N>>>("MusclHancockChar", 2, true);
}
} // namespace md
