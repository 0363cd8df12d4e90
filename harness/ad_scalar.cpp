#include "adapter.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/ShallowWater.hpp"
namespace md {
using namespace fub;
static std::unique_ptr<EqAdapter<Advection2d>> make_adv(Rng& r) {
  std::array<double, 2> v{r.uniform(-2, 2), r.uniform(-2, 2)};
  if (r.coin(0.15)) v[r.range(0, 1)] *= 1e-6;
  auto p = std::make_unique<EqAdapter<Advection2d>>("Advection2d", Fam::advection, Advection2d{v});
  p->vel = v;
  p->rnd = [](EqAdapter<Advection2d>&, Rng& r, Regime g, double* q) { q[0] = g == Regime::strong ? r.sign() * r.logu(1e-3, 1e3) : r.uniform(-1, 1); };
  return p;
}
static std::unique_ptr<EqAdapter<Burgers1d>> make_bur(Rng&) {
  auto p = std::make_unique<EqAdapter<Burgers1d>>("Burgers1d", Fam::burgers, Burgers1d{});
  p->rnd = [](EqAdapter<Burgers1d>&, Rng& r, Regime g, double* q) { double u = g == Regime::strong ? r.sign() * r.logu(1e-2, 1e2) : r.uniform(-1, 1); q[0] = std::abs(u) < 1e-3 ? 1e-3 : u; };
  return p;
}
static std::unique_ptr<EqAdapter<ShallowWater>> make_sw(Rng& r) {
  ShallowWater e; e.gravity_ = r.choose({10.0, 10.0, 9.81, 1.0});
  auto p = std::make_unique<EqAdapter<ShallowWater>>("ShallowWater", Fam::shallow, e);
  p->gravity = e.gravity_;
  p->rnd = [](EqAdapter<ShallowWater>& a, Rng& r, Regime g, double* q) {
    double h = g == Regime::mild ? r.uniform(0.8, 1.2) : g == Regime::moderate ? r.logu(0.5, 2) : r.logu(0.1, 10);
    double um = g == Regime::mild ? 0.3 : g == Regime::moderate ? 1 : 3; q[0] = h;
    if (a.novac) um = std::min(um, 1.6 * std::sqrt(a.gravity * h));
    for (int d = 0; d < 2; ++d) q[1 + d] = r.coin(0.12) ? 0.0 : h * r.uniform(-um, um);
  };
  return p;
}
template <typename E, typename FM, typename MK> void rs(const char* n, Fam f, MK mk, int order) { reg<E, FM, false>(n, f, mk, [](const E& e) { return FM(e); }, order); }
static const bool done = [] {
  rs<Advection2d, FluxMethod<Godunov<Advection2d>>>("Godunov/Advection2d", Fam::advection, make_adv, 1);
  rs<Advection2d, FluxMethod<MusclHancock<Advection2d>>>("MusclHancock/Advection2d", Fam::advection, make_adv, 2);
  rs<Burgers1d, FluxMethod<Godunov<Burgers1d>>>("Godunov/Burgers1d", Fam::burgers, make_bur, 1);
  rs<Burgers1d, FluxMethod<MusclHancock<Burgers1d>>>("MusclHancock/Burgers1d", Fam::burgers, make_bur, 2);
  using S = ShallowWater; using V = ShallowWaterSignalVelocities;
  rs<S, FluxMethod<Godunov<S>>>("Godunov/ShallowWater", Fam::shallow, make_sw, 1);
  rs<S, FluxMethod<MusclHancock<S>>>("MusclHancock/ShallowWater", Fam::shallow, make_sw, 2);
  using H = Hll<S, V>;
  rs<S, FluxMethod<H>>("Hll/ShallowWater", Fam::shallow, make_sw, 1);
  using MH = MusclHancock<S, HllMethod<S, V>>;
  reg<S, FluxMethod<MH>, false>("MusclHancockHll/ShallowWater", Fam::shallow, make_sw, [](const S& e) { return FluxMethod<MH>(e, HllMethod<S, V>{e, V{}}); }, 2);
  return true;
}();
} // namespace md
