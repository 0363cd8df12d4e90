// A small adaptive-mesh integrator context for the solver templates of
// include/fub/solver. It keeps for every level
//   * tokens: time of the data, validity of ghost cells, of the complete state,
//     of the copy in the hierarchy, contents of the flux registers, and
//   * for rank one a real finite-volume solution (Burgers flux, piecewise
//     constant interpolation, flux registers) with ghost cells that are
//     poisoned with NaN as soon as they are stale.
// Every operation checks the preconditions an adaptive hierarchy relies on.
#pragma once
#include "vm.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include <array>
#include <memory>

namespace amr {
using fub::Duration; using fub::Direction; using fub::Result; using fub::TimeStepTooLarge;
struct Ratio { std::array<int, 3> r{1, 1, 1}; int max() const { return std::max({r[0], r[1], r[2]}); } int operator[](int i) const { return r[size_t(i)]; } };
struct Options { int regrid_frequency = 1; };

// shared between all copies: what the oracle saw
struct Monitor {
  vm::Case* c = nullptr; std::string trace; bool expect_error = false; long sweeps = 0, fills = 0, regrids = 0, corrections = 0, failures = 0; bool quiet = false;
  std::string context;
  void check(bool ok, const char* key, const std::string& msg) { if (c) c->checkf(ok, key, [&] { return msg + " after " + tail() + " | " + context; }); }
  std::string tail() const { return trace.size() > 400 ? "..." + trace.substr(trace.size() - 400) : trace; }
};

struct Level {
  // tokens
  double time = 0, data_time = 0; std::ptrdiff_t cycles = 0; int subcycle_count = 0;
  bool complete = true, data_current = true;
  int valid[3] = {0, 0, 0};             // 0 none, 1 filled
  bool bc_after_update[3] = {true, true, true};
  int fills = 0; double fill_time = -1e300, fill_coarse_time = -1e300; double coarse_dt = 0; 
  int steps_since_fill = 1000000;
  int sweeps_in_step[3] = {0, 0, 0};
  bool flux_pending = false, accum_pending = false; int flux_dir = -1; double flux_dt = 0; bool dt_checked = false; double checked_dt = 0; bool presplit = false; int checked_dir = -1; bool flux_checked_complete = true;
  double dir_time[3] = {0, 0, 0};       // advanced in each direction within the current step
  bool in_step = false; double step_dt = 0; std::vector<int> order;
  // register to the next finer level
  bool reg_reset = false, reg_applied = false; double reg_coarse[3] = {0, 0, 0}, reg_fine[3] = {0, 0, 0}; bool coarsened = true, need_correction = false;
  // numerics (rank one)
  int lo = 0, hi = 0; double dx = 1; std::vector<double> u, f, data; int vw = 0; // valid ghost width
  double fr_c[2] = {0, 0}, fr_f[2] = {0, 0};
};

struct Script { // behaviour that does not depend on what is tested
  std::uint64_t seed = 1; int rank_mpi = 0, size_mpi = 1; int rank = 1; int max_levels = 3; std::vector<int> ratio{1, 2, 2}; int ncoarse = 32; bool dynamic = false; double base_dt = 1e-2; double p_drop = 0; bool numeric = false; bool post_fail = false; double p_post = 0;
  double hash(std::uint64_t a, std::uint64_t b, std::uint64_t d, std::uint64_t e) const { std::uint64_t v[4] = {a, b, d, e}; vm::Rng r(vm::hash_bytes(v, sizeof v, seed * 1099511628211ULL + 17)); return r.u01(); }
  // stable time step of a level and direction at sweep number n of hierarchy step k, seen by one process
  double local(int level, int dir, long k, long n, int proc) const {
    double total = 1; for (int l = 1; l <= level; ++l) total *= ratio[size_t(l)];
    double v = base_dt / total * (1 + 0.5 * hash(1, std::uint64_t(level * 8 + dir), std::uint64_t(k), std::uint64_t(proc)));
    if (n > 0 && hash(2, std::uint64_t(level * 8 + dir), std::uint64_t(k * 1000 + n), 0) < p_drop) v *= 0.2 + 0.7 * hash(3, std::uint64_t(level * 8 + dir), std::uint64_t(k * 1000 + n), std::uint64_t(proc));
    return v;
  }
  double global(int level, int dir, long k, long n) const { double v = 1e300; for (int p = 0; p < size_mpi; ++p) v = std::min(v, local(level, dir, k, n, p)); return v; }
  int nlevels(long k) const { return dynamic ? 1 + int(hash(4, std::uint64_t(k / 2), 0, 0) * max_levels) : max_levels; }
  // refined region of a level (in cells of that level) at step k, properly nested by construction
  void region(int level, long k, int& lo, int& hi) const {
    lo = 0; hi = ncoarse;
    for (int l = 1; l <= level; ++l) { int n = hi - lo; double a = hash(5, std::uint64_t(l), dynamic ? std::uint64_t(k / 3) : 0, 0), b = hash(6, std::uint64_t(l), dynamic ? std::uint64_t(k / 3) : 0, 0); int w = std::max(2, int(n * (0.25 + 0.3 * b))); int s = lo + 2 + int((n - 4 - w) * a); lo = s * ratio[size_t(l)]; hi = (s + w) * ratio[size_t(l)]; }
  }
};

struct GridView { double t; std::ptrdiff_t c; Duration GetTimePoint() const { return Duration(t); } std::ptrdiff_t GetCycles() const { return c; } };

template <int R> class Ctx {
public:
  std::shared_ptr<Monitor> m; std::shared_ptr<const Script> s; std::shared_ptr<fub::CounterRegistry> counters = std::make_shared<fub::CounterRegistry>();
  std::vector<Level> lv; Options opt; long sweep_no = 0; int fill_mode = 0;
  static constexpr int G = 3;
  Ctx(std::shared_ptr<Monitor> mm, std::shared_ptr<const Script> ss, Options o, std::function<double(double)> u0, int mode) : m(mm), s(ss), opt(o), fill_mode(mode) {
    int n = s->nlevels(0); for (int l = 0; l < n; ++l) { lv.emplace_back(); make_numeric(l, 0); if (s->numeric) for (int i = lv[l].lo; i < lv[l].hi; ++i) U(l, i) = u0((i + 0.5) * lv[l].dx); }
    if (s->numeric) for (int l = n - 1; l > 0; --l) average_down(l);
    for (auto& L : lv) L.data = L.u;
    if (fill_mode == 1) initial_fill();
  }
  void initial_fill() { FillGhostLayerSingleLevel(0); for (int l = 1; LevelExists(l); ++l) FillGhostLayerTwoLevels(l, l - 1); }
  void make_numeric(int l, long k) { Level& L = lv[size_t(l)]; s->region(l, k, L.lo, L.hi); L.dx = 1.0 / s->ncoarse; for (int j = 1; j <= l; ++j) L.dx /= s->ratio[size_t(j)]; if (s->numeric) { L.u.assign(size_t(L.hi - L.lo + 2 * G), std::nan("")); L.f.assign(L.u.size() + 1, std::nan("")); } }
  double& U(int l, int i) { Level& L = lv[size_t(l)]; return L.u.at(size_t(i - L.lo + G)); }
  double& F(int l, int i) { Level& L = lv[size_t(l)]; return L.f.at(size_t(i - L.lo + G)); } // left face of cell i
  void average_down(int l) { int r = s->ratio[size_t(l)]; Level& A = lv[size_t(l)]; for (int i = A.lo / r; i < A.hi / r; ++i) { double v = 0; for (int j = 0; j < r; ++j) v += U(l, i * r + j); U(l - 1, i) = v / r; } }
  double mass() const { const Level& L = lv[0]; double v = 0; for (int i = L.lo; i < L.hi; ++i) v += L.u[size_t(i - L.lo + G)] * L.dx; return v; }
  void t(const std::string& x) { m->trace += x; }
  // ---- interface used by the solvers
  const Options& GetOptions() const { return opt; }
  MPI_Comm GetMpiCommunicator() const { return MPI_COMM_WORLD; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const { return counters; }
  std::shared_ptr<GridView> GetGriddingAlgorithm() const { return std::make_shared<GridView>(GridView{lv[0].time, lv[0].cycles}); }
  Duration GetTimePoint(int l = 0) const { return Duration(lv.at(size_t(l)).time); }
  std::ptrdiff_t GetCycles(int l = 0) const { return lv.at(size_t(l)).cycles; }
  bool LevelExists(int l) const { return l >= 0 && l < int(lv.size()); }
  Ratio GetRatioToCoarserLevel(int l) const { Ratio r; for (int d = 0; d < R; ++d) r.r[size_t(d)] = s->ratio.at(size_t(l)); if (R > 1) r.r[0] = l % 2 ? r.r[0] : (r.r[0] > 1 ? r.r[0] - 1 : 1); if (R > 1) r.r[R - 1] = s->ratio.at(size_t(l)); if (l == 0) r.r = {1, 1, 1}; return r; }
  void ResetHierarchyConfiguration(int = 0) {}

  void FillGhostLayerSingleLevel(int l) { m->check(l == 0, "single level fill of level 0", vm::fmt("level %d", l)); t("g0 "); ++m->fills; filled(l, -1e300); }
  void FillGhostLayerTwoLevels(int f, int c0) { m->check(f > 0 && c0 == f - 1 && LevelExists(f), "two level fill of neighbouring levels", vm::fmt("%d %d", f, c0)); t(vm::fmt("g%d ", f)); ++m->fills; filled(f, lv.at(size_t(c0)).data_time); }
  void filled(int l, double ct) {
    Level& L = lv.at(size_t(l)); for (int d = 0; d < R; ++d) { L.valid[d] = 1; L.bc_after_update[d] = true; } L.fill_time = L.data_time; L.fill_coarse_time = ct; L.steps_since_fill = 0; ++L.fills;
    m->check(L.complete, "ghost fill from complete data", vm::fmt("level %d", l)); if (l > 0) m->check(lv[size_t(l - 1)].complete, "ghost fill from complete coarse data", vm::fmt("level %d", l));
    if (s->numeric) {
      L.vw = G; int n = L.hi - L.lo;
      for (int k = 1; k <= G; ++k) {
        if (l == 0) { U(0, L.lo - k) = U(0, L.hi - k); U(0, L.hi + k - 1) = U(0, L.lo + k - 1); }
        else { int r = s->ratio[size_t(l)]; auto dn = [&](int i) { return i >= 0 ? i / r : -((-i + r - 1) / r); }; U(l, L.lo - k) = coarse(l - 1, dn(L.lo - k)); U(l, L.hi + k - 1) = coarse(l - 1, dn(L.hi + k - 1)); }
      }
      (void)n;
    }
  }
  double coarse(int l, int i) { Level& L = lv[size_t(l)]; if (i < L.lo - G || i >= L.hi + G) return std::nan(""); return U(l, i); }
  void ApplyBoundaryCondition(int l, Direction d) { t(vm::fmt("b%d%c ", l, "xyz"[int(d)])); lv.at(size_t(l)).bc_after_update[int(d)] = true; }

  int PreAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    t(vm::fmt("[%d ", l)); Level& L = lv.at(size_t(l)); m->check(!L.in_step, "levels are advanced one step at a time", vm::fmt("level %d", l)); L.in_step = true; L.step_dt = dt.count(); L.order.clear();
    m->check(dt.count() > 0, "positive step", vm::fmt("level %d dt %g", l, dt.count())); m->check(sub.first >= 0 && sub.first < sub.second, "subcycle index", vm::fmt("%d/%d", sub.first, sub.second));
    m->check(L.subcycle_count % sub.second == sub.first, "subcycle counts up", vm::fmt("level %d: %d/%d, expected %d", l, sub.first, sub.second, L.subcycle_count % sub.second)); ++L.subcycle_count;
    for (int d = 0; d < R; ++d) { L.dir_time[d] = 0; L.sweeps_in_step[d] = 0; }
    ++L.steps_since_fill; L.reg_reset = L.reg_applied = false; L.coarsened = false;
    int result = s->max_levels + 1;
    if (sub.first == 0) {
      long k = lv[0].cycles; if (l == 0 && k > 0 && k % opt.regrid_frequency == 0 && s->dynamic) result = regrid(k);
      if (l == 0 && fill_mode == 0 && k == 0) result = 0;
    }
    return result;
  }
  int regrid(long k) {
    int n = s->nlevels(k); ++m->regrids; t("R "); std::vector<Level> old = lv; int first = s->max_levels + 1;
    for (int l = 1; l < std::max(n, int(old.size())); ++l) {
      if (l >= n) { lv.resize(size_t(n)); break; }
      bool had = l < int(old.size()); int lo, hi; s->region(l, k, lo, hi);
      if (had && old[size_t(l)].lo == lo && old[size_t(l)].hi == hi && first > s->max_levels) continue;
      first = std::min(first, l);
      if (!had) { lv.emplace_back(); lv.back().cycles = 0; } Level& L = lv[size_t(l)]; Level keep = L; L = Level(); L.time = lv[0].time; L.data_time = lv[0].data_time; L.cycles = keep.cycles; L.subcycle_count = 0; make_numeric(l, k);
      if (s->numeric) { int r = s->ratio[size_t(l)]; for (int i = L.lo; i < L.hi; ++i) { if (had && i >= old[size_t(l)].lo && i < old[size_t(l)].hi) U(l, i) = old[size_t(l)].u[size_t(i - old[size_t(l)].lo + G)]; else U(l, i) = U(l - 1, i / r); } }
      L.data = L.u;
    }
    if (s->numeric) for (int l = int(lv.size()) - 1; l > 0; --l) average_down(l);
    return first;
  }
  void PreSplitStep(int l, Duration dt, Direction d, std::pair<int, int> sub) { Level& L = lv.at(size_t(l)); L.presplit = true; m->check(dt.count() > 0 && dt.count() <= L.step_dt * (1 + 1e-14), "split step", vm::fmt("level %d %g of %g dir %d sub %d", l, dt.count(), L.step_dt, int(d), sub.first)); }
  Duration ComputeStableDt(int l, Direction d) {
    Level& L = lv.at(size_t(l)); double v = s->local(l, int(d), lv[0].cycles, L.in_step ? ++probe_count(l) : 0, s->rank_mpi);
    L.dt_checked = true; L.checked_dir = int(d); L.checked_dt = s->global(l, int(d), lv[0].cycles, L.in_step ? probes_[size_t(l)] : 0); m->check(L.complete, "stable step of complete data", vm::fmt("level %d", l));
    return Duration(v);
  }
  std::vector<long> probes_ = std::vector<long>(8, 0); long& probe_count(int l) { return probes_[size_t(l)]; }
  void ComputeNumericFluxes(int l, Duration dt, Direction dir) {
    Level& L = lv.at(size_t(l)); int d = int(dir); ++m->sweeps; t(vm::fmt("%c%d ", "xyz"[d], l)); auto at = [&] { return vm::fmt("level %d dir %d dt %.17g", l, d, dt.count()); };
    m->check(L.in_step, "flux inside a level step", at()); m->check(L.complete, "flux of complete data", at()); m->check(!L.flux_pending && !L.accum_pending, "previous sweep finished", at());
    m->check(L.valid[d] > 0, "ghost cells filled", at());
    m->check(L.steps_since_fill <= opt.regrid_frequency, "ghost cells of this step", at() + vm::fmt(" %d steps since fill", L.steps_since_fill));
    if (opt.regrid_frequency == 1) { m->check(std::abs(L.fill_time - L.time) <= 1e-12 * (1 + L.time), "ghost data of matching time", at() + vm::fmt(" filled at %.17g level time %.17g", L.fill_time, L.time));
      if (l > 0) { double cdt = lv[size_t(l - 1)].step_dt; m->check(L.fill_coarse_time <= L.time + 1e-9 * cdt && L.fill_coarse_time > L.time - cdt * (1 - 1e-9), "coarse ghost data of matching time", at() + vm::fmt(" coarse data time %.17g level time %.17g", L.fill_coarse_time, L.time)); } }
    if (L.sweeps_in_step[d] > 0) m->check(L.bc_after_update[d], "boundary condition before a repeated sweep", at());
    m->check(L.presplit && L.dt_checked && L.checked_dir == d, "sweep is prepared", at()); m->check(dt.count() <= L.checked_dt * (1 + 1e-14), "step within stable step of all processes", at() + vm::fmt(" > %.17g", L.checked_dt));
    L.presplit = L.dt_checked = false; L.flux_pending = L.accum_pending = true; L.flux_dir = d; L.flux_dt = dt.count(); L.order.push_back(d);
    if (s->numeric) { int w = L.vw; m->check(w > 0, "ghost cells left", at()); for (int i = L.lo - w + 1; i < L.hi + w; ++i) { double a = U(l, i - 1), b = U(l, i); F(l, i) = 0.5 * (a * a + b * b) / 2 - 0.5 * 1.5 * (b - a); } }
  }
  void UpdateConservatively(int l, Duration dt, Direction dir) {
    Level& L = lv.at(size_t(l)); int d = int(dir); auto at = [&] { return vm::fmt("level %d dir %d dt %.17g", l, d, dt.count()); };
    m->check(L.flux_pending && L.flux_dir == d && L.flux_dt == dt.count(), "update with the fluxes of this sweep", at()); L.flux_pending = false; L.complete = false; L.data_current = false; L.need_correction = true;
    for (int k = 0; k < R; ++k) L.bc_after_update[k] = false; L.dir_time[d] += dt.count(); ++L.sweeps_in_step[d]; if (d == 0) L.data_time += dt.count();
    if (s->numeric) { int w = L.vw; for (int i = L.lo - w + 1; i < L.hi + w - 1; ++i) U(l, i) += dt.count() / L.dx * (F(l, i) - F(l, i + 1)); L.vw -= 1; if (L.vw >= 0) { U(l, L.lo - w) = std::nan(""); U(l, L.hi + w - 1) = std::nan(""); } }
  }
  void CompleteFromCons(int l, Duration) { Level& L = lv.at(size_t(l)); L.complete = true; if (s->numeric) for (int i = L.lo; i < L.hi; ++i) m->check(U(l, i) == U(l, i), "interior value defined", vm::fmt("level %d cell %d", l, i)); }
  void AccumulateCoarseFineFluxes(int l, double scale, Direction dir) {
    Level& L = lv.at(size_t(l)); int d = int(dir); auto at = [&] { return vm::fmt("level %d dir %d scale %.17g", l, d, scale); };
    m->check(L.accum_pending && L.flux_dir == d && L.flux_dt == scale, "fluxes accumulated once with the step of the sweep", at()); L.accum_pending = false;
    if (l > 0) { Level& C = lv[size_t(l - 1)]; C.reg_fine[d] += scale; if (s->numeric) { C.fr_f[0] += scale * F(l, L.lo); C.fr_f[1] += scale * F(l, L.hi); } }
    if (LevelExists(l + 1)) { L.reg_coarse[d] += scale; if (s->numeric) { int r = s->ratio[size_t(l + 1)]; Level& N = lv[size_t(l + 1)]; L.fr_c[0] += scale * F(l, N.lo / r); L.fr_c[1] += scale * F(l, N.hi / r); } }
  }
  void ResetCoarseFineFluxes(int f, int c0) { t(vm::fmt("r%d ", c0)); Level& C = lv.at(size_t(c0)); m->check(f == c0 + 1 && LevelExists(f), "register between neighbouring levels", ""); for (int d = 0; d < R; ++d) C.reg_coarse[d] = C.reg_fine[d] = 0; C.fr_c[0] = C.fr_c[1] = C.fr_f[0] = C.fr_f[1] = 0; C.reg_reset = true; }
  void ApplyFluxCorrection(int f, int c0, Duration dt) {
    t(vm::fmt("c%d ", c0)); ++m->corrections; Level& C = lv.at(size_t(c0)); Level& N = lv.at(size_t(f)); auto at = [&] { return vm::fmt("levels %d/%d dt %.17g", f, c0, dt.count()); };
    m->check(f == c0 + 1, "register between neighbouring levels", at()); m->check(!C.reg_applied, "flux correction applied once", at()); m->check(C.reg_reset, "register reset in this step", at()); m->check(dt.count() == C.step_dt, "flux correction with the coarse step", at());
    m->check(!N.in_step, "correction after the fine level has finished", at()); m->check(std::abs(N.data_time - C.data_time) <= 1e-12 * (1 + C.data_time), "correction after the fine level has caught up", at() + vm::fmt(" %.17g %.17g", N.data_time, C.data_time));
    for (int d = 0; d < R; ++d) { m->check(std::abs(C.reg_coarse[d] - C.step_dt) <= 1e-12 * C.step_dt, "coarse fluxes of the whole step", at() + vm::fmt(" dir %d %.17g", d, C.reg_coarse[d])); m->check(std::abs(C.reg_fine[d] - C.step_dt) <= 1e-12 * C.step_dt, "fine fluxes of the whole step", at() + vm::fmt(" dir %d %.17g", d, C.reg_fine[d])); }
    C.reg_applied = true; C.complete = false; C.data_current = false; C.need_correction = false;
    if (s->numeric) { int r = s->ratio[size_t(f)]; U(c0, N.lo / r - 1) += (C.fr_c[0] - C.fr_f[0]) / C.dx; U(c0, N.hi / r) -= (C.fr_c[1] - C.fr_f[1]) / C.dx; }
  }
  void CoarsenConservatively(int f, int c0) {
    t(vm::fmt("a%d ", c0)); Level& C = lv.at(size_t(c0)); Level& N = lv.at(size_t(f)); auto at = [&] { return vm::fmt("levels %d/%d", f, c0); };
    m->check(f == c0 + 1 && !N.in_step && std::abs(N.data_time - C.data_time) <= 1e-12 * (1 + C.data_time), "coarsening after the fine level has caught up", at()); m->check(!C.coarsened, "coarsened once", at()); m->check(N.complete, "coarsening of complete data", at());
    C.coarsened = true; C.complete = false; C.data_current = false; if (s->numeric) average_down(f);
  }
  void CopyScratchToData(int l) { Level& L = lv.at(size_t(l)); m->check(L.complete, "copied data are complete", vm::fmt("level %d", l)); L.data_current = true; L.data = L.u; }
  void CopyDataToScratch(int l) { Level& L = lv.at(size_t(l)); L.u = L.data; }
  Result<void, TimeStepTooLarge> PostAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    t(vm::fmt("]%d ", l)); Level& L = lv.at(size_t(l)); auto at = [&] { return vm::fmt("level %d dt %.17g", l, dt.count()); };
    m->check(L.in_step && dt.count() == L.step_dt, "post matches pre", at()); m->check(L.complete, "level ends complete", at()); m->check(L.data_current, "level data copied to the hierarchy", at()); m->check(!L.flux_pending && !L.accum_pending, "last sweep finished", at());
    for (int d = 0; d < R; ++d) m->check(std::abs(L.dir_time[d] - L.step_dt) <= 1e-12 * L.step_dt, "each direction advanced by the step", at() + vm::fmt(" dir %d: %.17g", d, L.dir_time[d]));
    if (LevelExists(l + 1)) { m->check(L.reg_applied, "flux correction missing", at()); m->check(L.coarsened, "coarsening missing", at()); }
    if (R > 1 && L.order.size()) { bool odd = (lv[0].cycles % 2 + sub.first) % 2; m->check(L.order.front() == (odd ? R - 1 : 0), "order of directions alternates", at() + vm::fmt(" first %d odd %d", L.order.front(), odd)); }
    L.in_step = false; L.time += dt.count(); L.cycles += 1;
    if (s->p_post > 0 && s->hash(7, std::uint64_t(l), std::uint64_t(lv[0].cycles - (l == 0)), std::uint64_t(L.cycles)) < s->p_post && dt.count() > post_limit(l)) { t("P "); m->expect_error = true; return TimeStepTooLarge{Duration(post_limit(l)), l}; }
    return boost::outcome_v2::success();
  }
  double post_limit(int l) const { double total = 1; for (int j = 1; j <= l; ++j) total *= s->ratio[size_t(j)]; return s->base_dt / total * 0.4; }
  void PreAdvanceHierarchy() { t("{ "); for (auto& L : lv) m->check(!L.in_step, "hierarchy step starts clean", ""); ++pre_h; }
  void PostAdvanceHierarchy(Duration dt) { t("} "); post_h_dt = dt.count(); ++post_h; }
  int pre_h = 0, post_h = 0; double post_h_dt = 0;
};

// all levels at the end of a successful hierarchy step
template <int R> void judge_step(vm::Case& c, const Ctx<R>& a, double t0, double dt, std::ptrdiff_t c0, bool subcycled, const std::string& what) {
  double total = 1;
  for (size_t l = 0; l < a.lv.size(); ++l) {
    if (l) total *= a.s->ratio[l];
    const Level& L = a.lv[l];
    c.close(L.time, t0 + dt, 1e-13 * (1 + t0 + dt), "time stamps agree", vm::fmt("level %d ", int(l)) + what);
    c.close(L.data_time, t0 + dt, 1e-12 * (1 + t0 + dt), "data of all levels at the same time", vm::fmt("level %d ", int(l)) + what);
    c.check(!L.in_step && L.complete && L.data_current, "level left clean", vm::fmt("level %d ", int(l)) + what);
    if (l == 0) c.check(L.cycles == c0 + 1, "cycle count", what);
    (void)subcycled;
  }
}
} // namespace amr
