// Implementation of model.hpp for one equation type of the framework.
#pragma once
#include "model.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/Equation.hpp"
#include "fub/Execution.hpp"
#include "fub/ForEach.hpp"
#include "fub/HyperbolicMethod.hpp"
#include "fub/State.hpp"
#include "fub/StateArray.hpp"
#include "fub/StateRow.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"

namespace md {
template <typename S> void unflat(S& s, const double* q) { fub::ForEachComponent([&](double& x) { x = *q++; }, s); }
template <typename S> void flat(const S& s, double* q) { fub::ForEachComponent([&](const double& x) { *q++ = x; }, s); }
template <typename S> void unflat8(S& s, const double* q) { fub::ForEachComponent([&](auto&& x) { for (int l = 0; l < W; ++l) x(l) = q[l]; q += W; }, s); }
template <typename S> void flat8(const S& s, double* q) { fub::ForEachComponent([&](auto&& x) { for (int l = 0; l < W; ++l) q[l] = x(l); q += W; }, s); }
inline fub::MaskArray to_mask(const bool* m) { fub::MaskArray a; for (int l = 0; l < W; ++l) a(l) = m[l]; return a; }
inline fub::Array1d to_arr(const double* p) { fub::Array1d a; for (int l = 0; l < W; ++l) a(l) = p[l]; return a; }

// View of State (possibly const) over a field
template <typename State, typename Eqn> fub::View<State> make_view(const Eqn& eqn, Field& f) {
  constexpr int R = Eqn::Rank();
  using T = std::conditional_t<std::is_const_v<State>, const double, double>;
  fub::View<State> view{};
  int c = 0;
  auto depths = fub::Depths(eqn, fub::Type<std::remove_const_t<State>>{});
  fub::ForEachVariable(
      [&](auto& pdv, auto depth) {
        using P = std::decay_t<decltype(pdv)>;
        constexpr std::size_t PR = P::sRank;
        std::array<std::ptrdiff_t, PR> ext{}, str{}, org{};
        for (int d = 0; d < R; ++d) { ext[d] = f.hi[d] - f.lo[d]; str[d] = f.stride(d); org[d] = f.lo[d]; }
        int n = 1;
        if constexpr (PR == R + 1) {
          if constexpr (std::is_same_v<std::decay_t<decltype(depth)>, int>) n = depth; else n = decltype(depth)::value;
          ext[R] = n; str[R] = f.cstride; org[R] = 0;
        }
        fub::layout_stride::mapping<fub::dynamic_extents<PR>> map{fub::dynamic_extents<PR>(ext), str};
        pdv = fub::PatchDataView<T, int(PR), fub::layout_stride>(fub::mdspan<T, PR, fub::layout_stride>(c < f.ncomp ? f.ptr(c) : f.buf.data(), map), org);
        c += n;
      },
      view, depths);
  return view;
}

template <typename Eqn> using FluxMaskedT = decltype(std::declval<const Eqn&>().Flux(std::declval<fub::ConservativeArray<Eqn>&>(), std::declval<const fub::CompleteArray<Eqn>&>(), std::declval<fub::MaskArray>(), fub::Direction::X));
template <typename Eqn> using CfcMaskedT = decltype(std::declval<Eqn&>().CompleteFromCons(std::declval<fub::CompleteArray<Eqn>&>(), std::declval<const fub::ConservativeArray<Eqn>&>(), std::declval<fub::MaskArray>()));

template <typename Eqn> struct EqAdapter : Eq {
  Eqn eqn;
  std::function<void(EqAdapter&, Rng&, Regime, double*)> rnd;
  fub::Conservative<Eqn> cons; fub::Complete<Eqn> comp;
  fub::ConservativeArray<Eqn> consa; fub::CompleteArray<Eqn> compa;
  std::unique_ptr<fub::CompleteFromConsFn<Eqn>> fn;
  EqAdapter(std::string n, Fam fm, Eqn e) : eqn(std::move(e)), cons(eqn), comp(eqn), consa(eqn), compa(eqn), fn(new fub::CompleteFromConsFn<Eqn>{eqn}) {
    name = std::move(n); fam = fm; rank = Eqn::Rank();
    using Traits = fub::StateTraits<fub::Complete<Eqn>>;
    std::vector<std::string> names;
    boost::mp11::tuple_for_each(Traits::names, [&](const char* s) { names.push_back(s); });
    std::size_t v = 0;
    fub::ForEachVariable([&](auto& x) {
      int k = 1;
      if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, double>) k = int(x.size());
      for (int i = 0; i < k; ++i) comps.push_back({names[v], i});
      ++v;
    }, comp);
    ncomp = int(comps.size());
    fub::ForEachComponent([&](double&) { ++ncons; }, cons);
  }
  void random(Rng& r, Regime reg, double* q) override { rnd(*this, r, reg, q); }
  void flux(const double* q, int dir, double* f) override { unflat(comp, q); fub::Flux(eqn, cons, comp, fub::Direction(dir)); flat(cons, f); }
  bool flux8(const double* q, int dir, double* f) override { unflat8(compa, q); fub::Flux(eqn, consa, compa, fub::Direction(dir)); flat8(consa, f); return true; }
  bool fluxm(const double* q, const bool* m, int dir, double* f) override {
    if constexpr (fub::is_detected<FluxMaskedT, Eqn>::value) { unflat8(compa, q); eqn.Flux(consa, compa, to_mask(m), fub::Direction(dir)); flat8(consa, f); return true; }
    return false;
  }
  void complete(const double* c, double* q) override { unflat(cons, c); fub::CompleteFromCons(eqn, comp, cons); flat(comp, q); }
  bool complete8(const double* c, double* q) override { unflat8(consa, c); fub::CompleteFromCons(eqn, compa, consa); flat8(compa, q); return true; }
  bool completem(const double* c, const bool* m, double* q) override {
    if constexpr (fub::is_detected<CfcMaskedT, Eqn>::value) { unflat8(consa, c); fub::CompleteFromCons(eqn, compa, consa, to_mask(m)); flat8(compa, q); return true; }
    return false;
  }
  void complete_view(Pol p, Field& q, const Field& c) override {
    auto qv = make_view<fub::Complete<Eqn>>(eqn, q);
    auto cv = make_view<const fub::Conservative<Eqn>>(eqn, const_cast<Field&>(c));
    switch (p) {
    case Pol::seq: fn->CompleteFromCons(fub::execution::seq, qv, cv); break;
    case Pol::simd: fn->CompleteFromCons(fub::execution::simd, qv, cv); break;
    case Pol::omp: fn->CompleteFromCons(fub::execution::openmp, qv, cv); break;
    case Pol::ompsimd: fn->CompleteFromCons(fub::execution::openmp_simd, qv, cv); break;
    case Pol::dflt: fub::CompleteFromCons(eqn, qv, cv); break;
    }
  }
};

template <typename M> using MaskedFluxT = decltype(std::declval<M&>().ComputeNumericFlux(
    std::declval<fub::ConservativeArray<typename M::Equation>&>(), std::declval<fub::Array1d>(),
    std::declval<std::array<fub::CompleteArray<typename M::Equation>, M::StencilSize>&>(),
    std::declval<std::array<fub::Array1d, M::StencilSize>&>(), fub::Duration(0.0), 0.0, fub::Direction::X));

template <typename M> using MaskedDtT = decltype(std::declval<M&>().ComputeStableDt(
    std::declval<std::array<fub::CompleteArray<typename M::Equation>, M::StencilSize>&>(), std::declval<fub::Array1d>(),
    std::declval<std::array<fub::Array1d, M::StencilSize>&>(), 0.0, fub::Direction::X));

// FM: a FluxMethod<...>
template <typename Eqn, typename FM, bool Masked> struct MethodAdapter : Method {
  std::unique_ptr<EqAdapter<Eqn>> e;
  FM m;
  static constexpr std::size_t S = FM::StencilSize;
  std::array<fub::Complete<Eqn>, S> st; std::array<fub::CompleteArray<Eqn>, S> sta; std::array<fub::Array1d, S> vola;
  fub::Conservative<Eqn> nf; fub::ConservativeArray<Eqn> nfa;
  MethodAdapter(std::unique_ptr<EqAdapter<Eqn>> eq_, FM fm) : e(std::move(eq_)), m(std::move(fm)), nf(e->eqn), nfa(e->eqn) {
    width = FM::GetStencilWidth(); masked = Masked && FM::GetStencilWidth() <= 2; masked_dt = Masked && fub::is_detected<MaskedDtT, FM>::value;
    st.fill(fub::Complete<Eqn>(e->eqn)); sta.fill(fub::CompleteArray<Eqn>(e->eqn));
  }
  Eq& eq() override { return *e; }
  void load(const double* s) { for (std::size_t i = 0; i < S; ++i) unflat(st[i], s + i * e->ncomp); }
  void load8(const double* s) { for (std::size_t i = 0; i < S; ++i) unflat8(sta[i], s + i * e->ncomp * W); }
  void flux(const double* s, double dt, double dx, int dir, double* f) override { load(s); m.ComputeNumericFlux(nf, st, fub::Duration(dt), dx, fub::Direction(dir)); flat(nf, f); }
  void flux8(const double* s, double dt, double dx, int dir, double* f) override { load8(s); m.ComputeNumericFlux(nfa, sta, fub::Duration(dt), dx, fub::Direction(dir)); flat8(nfa, f); }
  void fluxm(const double* s, const double* face, const double* vol, double dt, double dx, int dir, double* f) override {
    if constexpr (Masked) {
      load8(s); for (std::size_t i = 0; i < S; ++i) vola[i] = to_arr(vol + i * W);
      m.ComputeNumericFlux(nfa, to_arr(face), sta, vola, fub::Duration(dt), dx, fub::Direction(dir)); flat8(nfa, f);
    }
  }
  double dt1(const double* s, double dx, int dir) override { load(s); return m.ComputeStableDt(st, dx, fub::Direction(dir)); }
  void dt8(const double* s, double dx, int dir, double* out) override {
    if (!has_dt8) { Vec q(S * std::size_t(e->ncomp)); for (int l = 0; l < W; ++l) { for (std::size_t i = 0; i < q.size(); ++i) q[i] = s[i * W + std::size_t(l)]; out[l] = dt1(q.data(), dx, dir); } return; }
    load8(s); fub::Array1d r = m.ComputeStableDt(sta, dx, fub::Direction(dir)); for (int l = 0; l < W; ++l) out[l] = r(l); }
  void dtm(const double* s, const double* face, const double* vol, double dx, int dir, double* out) override {
    if constexpr (Masked) {
      load8(s); for (std::size_t i = 0; i < S; ++i) vola[i] = to_arr(vol + i * W);
      if constexpr (fub::is_detected<MaskedDtT, FM>::value) { fub::Array1d r = m.ComputeStableDt(sta, to_arr(face), vola, dx, fub::Direction(dir)); for (int l = 0; l < W; ++l) out[l] = r(l); }
    }
  }
  void fluxes(Pol p, Field& f, const Field& q, double dt, double dx, int dir) override {
    auto fv = make_view<fub::Conservative<Eqn>>(e->eqn, f);
    auto qv = make_view<const fub::Complete<Eqn>>(e->eqn, const_cast<Field&>(q));
    fub::Duration t(dt); fub::Direction d = fub::Direction(dir);
    switch (p) {
    case Pol::seq: m.ComputeNumericFluxes(fub::execution::seq, fv, qv, t, dx, d); break;
    case Pol::simd: m.ComputeNumericFluxes(fub::execution::simd, fv, qv, t, dx, d); break;
    case Pol::omp: m.ComputeNumericFluxes(fub::execution::openmp, fv, qv, t, dx, d); break;
    case Pol::ompsimd: m.ComputeNumericFluxes(fub::execution::openmp_simd, fv, qv, t, dx, d); break;
    case Pol::dflt: m.ComputeNumericFluxes(fv, qv, t, dx, d); break;
    }
  }
  double dts(Pol p, const Field& q, double dx, int dir) override {
    auto qv = make_view<const fub::Complete<Eqn>>(e->eqn, const_cast<Field&>(q));
    fub::Direction d = fub::Direction(dir);
    if (!has_dt8 && (p == Pol::simd || p == Pol::ompsimd)) p = Pol::seq;
    switch (p) {
    case Pol::seq: return m.ComputeStableDt(fub::execution::seq, qv, dx, d);
    case Pol::simd: return m.ComputeStableDt(fub::execution::simd, qv, dx, d);
    case Pol::omp: return m.ComputeStableDt(fub::execution::openmp, qv, dx, d);
    case Pol::ompsimd: return m.ComputeStableDt(fub::execution::openmp_simd, qv, dx, d);
    default: return m.ComputeStableDt(qv, dx, d);
    }
  }
};

// registers method FM for equation Eqn; make_eq builds an equation with random parameters
template <typename Eqn, typename FM, bool Masked, typename MakeEq, typename MakeM>
void reg(const std::string& name, Fam fam, MakeEq make_eq, MakeM make_m, int order, bool prim = false) {
  methods().push_back({name, Eqn::Rank(), fam, [=](Rng& r) -> std::unique_ptr<Method> {
    std::unique_ptr<EqAdapter<Eqn>> e = make_eq(r);
    FM fm = make_m(e->eqn);
    auto p = std::make_unique<MethodAdapter<Eqn, FM, Masked>>(std::move(e), std::move(fm));
    p->name = name; p->order = order; p->prim = prim; p->muscl = order > 1; p->has1 = name != "MusclHancockPrim/PerfectGas1" && name != "MusclHancockPrim/PerfectGas2" && name != "MusclHancockPrim/PerfectGas3";
    p->has_dt8 = name.rfind("Godunov/PerfectGas", 0) != 0 && name.rfind("MusclHancock/PerfectGas", 0) != 0;
    p->agree = name.rfind("MusclHancockPrim/IdealGas", 0) != 0;
    p->eq().novac = !p->has_dt8 || name == "Godunov/ShallowWater" || name == "MusclHancock/ShallowWater"; // these solve the Riemann problem exactly
    if (!p->has_dt8) p->masked_dt = false;
    return p;
  }});
}
} // namespace md
