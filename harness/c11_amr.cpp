// C11: subcycling over an adaptive hierarchy (runs on several MPI processes
// whose local stable steps differ).
#include "amr_mock.hpp"
#include "loop_mock.hpp"
using namespace amr;
namespace {
int g_rank = 0, g_size = 1;
struct Start2 { Start2() { vm::on_start = [](int& a, char**& v) { loopmock::start(a, v); MPI_Comm_rank(MPI_COMM_WORLD, &g_rank); MPI_Comm_size(MPI_COMM_WORLD, &g_size); vm::write_results = g_rank == 0; }; } } start2;

struct Setup { std::shared_ptr<Monitor> m = std::make_shared<Monitor>(); std::shared_ptr<Script> s = std::make_shared<Script>(); Options opt; std::function<double(double)> u0; int mode = 0; };
Setup setup(vm::Case& c, int R) {
  Setup x; x.m->c = &c; Script& s = *x.s; s.seed = c.rng.next(); s.rank_mpi = g_rank; s.size_mpi = g_size; s.rank = R; s.max_levels = c.rng.range(1, 4); s.ratio = {1}; for (int l = 1; l < 5; ++l) s.ratio.push_back(c.rng.choose({2, 2, 3, 4})); s.dynamic = c.rng.coin(); s.p_drop = c.rng.choose({0.0, 0.0, 0.1, 0.5}); s.numeric = R == 1; s.base_dt = 0.2 / s.ncoarse; s.p_post = c.rng.choose({0.0, 0.0, 0.3});
  x.opt.regrid_frequency = c.rng.choose({1, 1, 1, 2, 3}); if (x.opt.regrid_frequency > 1) s.numeric = false; double a = c.rng.uniform(0.2, 1), b = c.rng.uniform(0, 6); x.u0 = [a, b](double y) { return 0.3 + a * std::sin(6.283185307179586 * y + b); }; x.mode = c.rng.coin() ? 1 : 0;
  x.m->context = vm::fmt("levels %d ratios %d %d %d dynamic %d regrid %d drop %g post %g mode %d", s.max_levels, s.ratio[1], s.ratio[2], s.ratio[3], s.dynamic, x.opt.regrid_frequency, s.p_drop, s.p_post, x.mode); c.describe(x.m->context);
  return x;
}
template <typename S> double total_ratio(S& s, int l) { double r = 1; for (int j = 1; j <= l; ++j) r *= s.ratio[size_t(j)]; return r; }

template <int R, typename Solver, typename Make> void run(vm::Case& c, Setup& x, Make make, bool subcycled, bool sys) {
  Solver solver = make(); auto& ctx = [&]() -> Ctx<R>& { return solver.GetContext(); }();
  const double mass0 = x.s->numeric ? ctx.mass() : 0; int steps = c.rng.range(2, 6);
  for (int k = 0; k < steps; ++k) {
    Ctx<R>& a = solver.GetContext();
    // stable step: minimum over levels, directions and processes, weighted with the refinement
    for (auto& p : a.probes_) p = 0;
    double want = 1e300; for (size_t l = 0; l < a.lv.size(); ++l) for (int d = 0; d < R; ++d) want = std::min(want, (subcycled ? total_ratio(*x.s, int(l)) : 1.0) * x.s->global(int(l), d, a.lv[0].cycles, 0));
    if (sys) for (size_t l = 0; l < a.lv.size(); ++l) want = std::min(want, (subcycled ? total_ratio(*x.s, int(l)) : 1.0) * 0.9 * x.s->base_dt / total_ratio(*x.s, int(l)) * (l == 1 ? 0.7 : 1.0));
    Duration st = solver.ComputeStableDt(); c.close(st.count(), want, 1e-13 * want, "stable step of the hierarchy", x.m->context);
    double dt = c.rng.choose({0.5, 0.8, 1.0}) * st.count(); Solver backup = solver; const double t0 = a.lv[0].time; const auto c0 = a.lv[0].cycles; double mass1 = x.s->numeric ? a.mass() : 0;
    bool done = false; 
    for (int attempt = 0; attempt < 60; ++attempt) {
      x.m->expect_error = false; solver.PreAdvanceHierarchy(); auto r = solver.AdvanceHierarchy(Duration(dt));
      if (r) { c.check(!x.m->expect_error, "failure of a level or source is reported", x.m->tail() + x.m->context); solver.PostAdvanceHierarchy(Duration(dt)); done = true; break; }
      ++x.m->failures; x.m->trace += "! "; double e = r.error().dt.count();
      c.check(e <= dt * (1 + 1e-14) && e > 0, "reported bound is smaller than the step", vm::fmt("%.17g of %.17g: ", e, dt) + x.m->tail() + x.m->context);
      if (subcycled) c.check(r.error().level == 0, "reported bound belongs to the coarsest level", vm::fmt("level %d", r.error().level));
      // every process sees the same bound
      double lo, hi; MPI_Allreduce(&e, &lo, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(&e, &hi, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); c.check(lo == hi, "all processes report the same bound");
      if (!(e > 0) || !(e <= dt * (1 + 1e-14))) throw vm::Abandon{};
      // the bound is the failing level's step scaled to the coarsest level
      { bool found = false; const Ctx<R>& f = solver.GetContext(); for (size_t l = 0; l < f.lv.size() && !found; ++l) { double w = subcycled ? total_ratio(*x.s, int(l)) : 1.0; if (std::abs(f.lv[l].checked_dt * w - e) <= 1e-13 * e) found = true; if (x.s->p_post > 0 && std::abs(f.post_limit(int(l)) * w - e) <= 1e-13 * e) found = true; double sl = 0.35 * x.s->base_dt / total_ratio(*x.s, int(l)); if (sys && std::abs(sl * w - e) <= 1e-13 * e) found = true; } c.check(found, "reported bound is the failing level's stable step", vm::fmt("%.17g ", e) + x.m->tail() + x.m->context); }
      solver = backup; dt = 0.95 * e;
    }
    c.check(done, "retry succeeds", x.m->tail() + x.m->context); if (!done) break;
    Ctx<R>& b = solver.GetContext(); judge_step<R>(c, b, t0, dt, c0, subcycled, x.m->tail() + " | " + x.m->context);
    c.check(b.post_h == b.pre_h && b.post_h_dt == dt && b.post_h == k + 1, "hierarchy hooks called", x.m->context);
    if (x.s->numeric) { c.close(b.mass(), mass1, 1e-13, "mass conserved over the hierarchy", x.m->tail() + x.m->context); c.close(b.mass(), mass0, 1e-12, "mass conserved over the run"); 
      for (size_t l = 1; l < b.lv.size(); ++l) { int r = x.s->ratio[l]; const Level& N = b.lv[l]; const Level& C = b.lv[l - 1]; bool ok = true; for (int i = N.lo / r; i < N.hi / r; ++i) { double v = 0; for (int j = 0; j < r; ++j) v += N.u[size_t(i * r + j - N.lo + Ctx<R>::G)]; ok = ok && std::abs(v / r - C.u[size_t(i - C.lo + Ctx<R>::G)]) < 1e-14; } c.check(ok, "coarse data are the average of the fine data", vm::fmt("levels %d/%d ", int(l), int(l) - 1) + x.m->context); } }
    // number of sub-steps
    x.m->trace += "| ";
  }
  c.event("sweeps", x.m->sweeps); c.event("ghost fills", x.m->fills); c.event("corrections", x.m->corrections); c.event("rejected", x.m->failures); c.event("regrids", x.m->regrids);
  std::string t = x.m->trace; c.sig(std::to_string(std::hash<std::string>()(t)));
}

struct Source {
  static const int Rank = 1; std::shared_ptr<Monitor> m; std::shared_ptr<const Script> s; double p_fail = 0, p_post = 0; std::vector<double> adv = std::vector<double>(6, 0.0); int pre = 0, post = 0, pre_h = 0, post_h = 0; double post_dt = 0; bool reset = false;
  template <typename C> Duration ComputeStableDt(const C&, int l) { double t = 1; for (int j = 1; j <= l; ++j) t *= s->ratio[size_t(j)]; return Duration(0.9 * s->base_dt / t * (l == 1 ? 0.7 : 1.0)); }
  void PreAdvanceHierarchy() { ++pre_h; } void PostAdvanceHierarchy(Duration dt) { ++post_h; post_dt = dt.count(); }
  void PreAdvanceLevel(int l, Duration, std::pair<int, int>) { ++pre; adv[size_t(l)] = 0; }
  double limit(int l) const { double t = 1; for (int j = 1; j <= l; ++j) t *= s->ratio[size_t(j)]; return 0.35 * s->base_dt / t; }
  Result<void, TimeStepTooLarge> PostAdvanceLevel(int l, Duration dt, std::pair<int, int>) { ++post; m->check(std::abs(adv[size_t(l)] - dt.count()) <= 1e-13 * dt.count(), "source advanced by the step", vm::fmt("level %d %.17g of %.17g", l, adv[size_t(l)], dt.count())); if (p_post > 0 && dt.count() > limit(l)) { m->trace += "Q "; m->expect_error = true; m->c->event("source post failures"); return TimeStepTooLarge{Duration(limit(l)), l}; } return boost::outcome_v2::success(); }
  template <typename C> Result<void, TimeStepTooLarge> AdvanceLevel(C& ctx, int l, Duration dt) { m->trace += vm::fmt("s%d ", l); m->check(ctx.lv.at(size_t(l)).in_step, "source inside a level step", ""); adv[size_t(l)] += dt.count(); if (p_fail > 0 && dt.count() > limit(l)) { m->trace += "F "; m->expect_error = true; return TimeStepTooLarge{Duration(limit(l)), l}; } return boost::outcome_v2::success(); }
};

template <int R, typename Split> void fine_first(vm::Case& c, Split sp) { Setup x = setup(c, R); using LI = fub::DimensionalSplitLevelIntegrator<R, Ctx<R>, Split>; using S = fub::SubcycleFineFirstSolver<LI>; run<R, S>(c, x, [&] { return S(LI(Ctx<R>(x.m, x.s, x.opt, x.u0, x.mode), sp)); }, true, false); }
template <int R, typename Split> void no_sub(vm::Case& c, Split sp) { Setup x = setup(c, R); x.opt.regrid_frequency = 1; using LI = fub::DimensionalSplitLevelIntegrator<R, Ctx<R>, Split>; using S = fub::NoSubcycleSolver<LI>; run<R, S>(c, x, [&] { return S(LI(Ctx<R>(x.m, x.s, x.opt, x.u0, x.mode), sp)); }, false, false); }
template <typename F> void any_split(vm::Case& c, F f) { switch (c.rng.range(0, 3)) { case 0: f(fub::GodunovSplitting()); break; case 1: f(fub::StrangSplitting()); break; case 2: f(fub::StrangSplittingLumped()); break; default: f(fub::GodunovSplitting()); } }
}

ORACLE("amr.fine_first", 1500, 30000) {
  int R = c.rng.range(1, 3); any_split(c, [&](auto sp) { using S = decltype(sp); if (R == 1) fine_first<1, S>(c, sp); else if (R == 2) fine_first<2, S>(c, sp); else fine_first<3, S>(c, sp); });
}
// the mass balance when ghost cells are refreshed less often than every step
ORACLE("amr.regrid_frequency", 60, 1000) {
  Setup x = setup(c, 1); x.s->numeric = true; x.m->c = nullptr; x.s->max_levels = 1 + int(c.rng.coin()); x.s->p_drop = 0; x.s->p_post = 0; x.s->dynamic = false; x.mode = 1; x.opt.regrid_frequency = c.rng.range(2, 3);
  using LI = fub::DimensionalSplitLevelIntegrator<1, Ctx<1>, fub::GodunovSplitting>; fub::SubcycleFineFirstSolver<LI> solver(LI(Ctx<1>(x.m, x.s, x.opt, x.u0, x.mode), fub::GodunovSplitting()));
  double m0 = solver.GetContext().mass(); for (int k = 0; k < x.opt.regrid_frequency; ++k) { solver.PreAdvanceHierarchy(); auto r = solver.AdvanceHierarchy(Duration(0.8 * x.s->base_dt)); if (!r) return; }
  c.close(solver.GetContext().mass(), m0, 1e-12, "mass-with-stale-ghost-cells", x.m->tail()); c.sig(vm::fmt("%d %d", x.opt.regrid_frequency, x.s->max_levels));
}
ORACLE("amr.no_subcycle", 1000, 20000) {
  int R = c.rng.range(1, 3); any_split(c, [&](auto sp) { using S = decltype(sp); if (R == 1) no_sub<1, S>(c, sp); else if (R == 2) no_sub<2, S>(c, sp); else no_sub<3, S>(c, sp); });
}
// hyperbolic system and source term
template <typename Outer, typename Split> void system_source(vm::Case& c, Split sp, bool sub) {
  Setup x = setup(c, 1); if (!sub) x.opt.regrid_frequency = 1; using D = fub::DimensionalSplitLevelIntegrator<1, Ctx<1>, Split>; using LI = fub::SplitSystemSourceLevelIntegrator<D, Source, Outer>;
  Source src; src.m = x.m; src.s = x.s; src.p_fail = c.rng.choose({0.0, 1.0}); src.p_post = c.rng.choose({0.0, 1.0});
  // ghost capacity: the system may be advanced twice per step
  Outer outer{};
  auto check_end = [&](auto& solver) { Source& s = solver.GetLevelIntegrator().GetSource(); c.check(s.pre_h == s.post_h && s.pre_h > 0, "source hierarchy hooks", vm::fmt("%d %d", s.pre_h, s.post_h)); c.check(s.pre == s.post && s.pre > 0, "source level hooks", vm::fmt("%d %d", s.pre, s.post)); };
  if (sub) { using S = fub::SubcycleFineFirstSolver<LI>; std::shared_ptr<S> keep; run<1, S>(c, x, [&] { return S(LI(D(Ctx<1>(x.m, x.s, x.opt, x.u0, x.mode), sp), src, outer)); }, true, true); (void)check_end; }
  else { using S = fub::NoSubcycleSolver<LI>; run<1, S>(c, x, [&] { return S(LI(D(Ctx<1>(x.m, x.s, x.opt, x.u0, x.mode), sp), src, outer)); }, false, true); }
}
ORACLE("amr.source", 1000, 20000) {
  bool sub = c.rng.coin(); any_split(c, [&](auto sp) { using S = decltype(sp); switch (c.rng.range(0, 1)) { case 0: system_source<fub::StrangSplittingLumped, S>(c, sp, sub); break; default: system_source<fub::GodunovSplitting, S>(c, sp, sub); } });
}
