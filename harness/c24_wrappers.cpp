// C24: type-erased wrappers under random histories of construct, copy, move, assign, call, destroy.
#include "vm.hpp"
#include "ad_gas.hpp"
#include "fub/AnyBoundaryCondition.hpp"
#include "fub/AnyInitialData.hpp"
#include "fub/AnyTaggingMethod.hpp"
#include "fub/cutcell_method/AnyMdLimiter.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
#include "fub/geometry/Union.hpp"
#include "fub/core/function_ref.hpp"
#include "fub/ext/omp.hpp"
#include "fub/ode_solver/OdeSolverFactory.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/output/OutputFactory.hpp"
#include "fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
namespace {
struct Grid; struct Data { int x = 0; }; struct Level { int y = 0; }; struct Tags { int id = 0; };
struct Grid { std::ptrdiff_t cycles = 0; double time = 0; std::ptrdiff_t GetCycles() const { return cycles; } fub::Duration GetTimePoint() const { return fub::Duration(time); } };
}
namespace fub { template <> struct GridTraits<Grid> { using PatchLevel = Level; using DataReference = Data&; using TagDataHandle = Tags; }; }
using namespace fub;
namespace {
// ---------------------------------------------------------------- instrumented plug-ins
struct Rec { int fn = 0; int id = 0; long state = 0; const void *a = nullptr, *b = nullptr, *c = nullptr; int level = 0; int dir = -1; double t = 0; bool operator==(const Rec& o) const { return fn == o.fn && id == o.id && state == o.state && a == o.a && b == o.b && c == o.c && level == o.level && dir == o.dir && t == o.t; } };
struct Boom { int id; };
struct Journal { long live = 0, copies = 0; std::vector<Rec> log; std::set<const void*> where; bool dead_call = false; int throw_id = -1; };
Journal* J = nullptr;
template <int Kind> struct Probe {
  int id; mutable long state; std::unique_ptr<long> own; // own: detects shared or released storage
  Probe(int i, long s) : id(i), state(s), own(new long(i * 1000003L)) { born(); }
  Probe(const Probe& o) : id(o.id), state(o.state), own(o.own ? new long(*o.own) : nullptr) { ++J->copies; if (!J->where.count(&o)) J->dead_call = true; born(); }
  Probe(Probe&& o) noexcept : id(o.id), state(o.state), own(std::move(o.own)) { if (!J->where.count(&o)) J->dead_call = true; born(); }
  Probe& operator=(const Probe&) = delete;
  ~Probe() { --J->live; if (!J->where.erase(this)) J->dead_call = true; }
  void born() { ++J->live; if (!J->where.insert(this).second) J->dead_call = true; }
  void hit(Rec r) const { if (!J->where.count(this) || !own || *own != id * 1000003L) J->dead_call = true; r.id = id; r.state = state; J->log.push_back(r); ++state; if (J->throw_id == id) throw Boom{id}; }
  // boundary condition
  void FillBoundary(Data& d, const Grid& g, int level) { hit({1, 0, 0, &d, &g, nullptr, level}); d.x += id; }
  void FillBoundary(Data& d, const Grid& g, int level, Direction dir) { hit({2, 0, 0, &d, &g, nullptr, level, int(dir)}); d.x -= id; }
  // initial data
  void InitializeData(Level& l, const Grid& g, int level, Duration t) { hit({3, 0, 0, &l, &g, nullptr, level, -1, t.count()}); l.y += id; }
  // tagging
  void TagCellsForRefinement(Tags t, Grid& g, int level, Duration time) { hit({4, 0, 0, nullptr, &g, nullptr, level, t.id, time.count()}); g.cycles += id; }
  // limiter
  template <int R> void LimitGradientsAtIndex(const std::array<StridedDataView<double, R>, std::size_t(R)>& grad, StridedDataView<const double, R> u, const CutCellData<R>& geom, const Index<R>& index, const Coordinates<R>& dx) const { hit({5, 0, 0, &grad, &geom, &index, int(index[0]), -1, dx[0] + u(index)}); grad[0](index) += id; }
  // geometry
  template <std::size_t R> double ComputeDistanceTo(const std::array<double, R>& x) const { hit({6, 0, 0, nullptr, nullptr, nullptr, 0, -1, x[0]}); return x[0] + 2 * x[R - 1] + id; }
};
struct WithPre : Probe<1> { using Probe<1>::Probe; void PreAdvanceHierarchy(const Grid& g) { hit({7, 0, 0, &g}); } };
struct Geo2 : Geometry<2>, Probe<3> { using Probe<3>::Probe; std::unique_ptr<Geometry<2>> Clone() const override { return std::make_unique<Geo2>(*this); } double ComputeDistanceTo(const std::array<double, 2>& x) const override { return Probe<3>::ComputeDistanceTo<2>(x); } };

struct BcW { using Any = AnyBoundaryCondition<Grid>; using A = Probe<0>; using B = WithPre; static constexpr bool empty = true;
  static void call(vm::Case& c, Any& w, int id, long state, int cls) {
    Data d; Grid g; Direction dir = Direction(c.rng.range(0, 2)); int level = c.rng.range(-3, 9), k = c.rng.range(0, 3); std::size_t n = J->log.size(); Rec want; bool none = id < 0;
    if (k == 0) { w.FillBoundary(d, g, level); want = {1, id, state, &d, &g, nullptr, level}; c.check(d.x == (none ? 0 : id), "side_effect", ""); }
    else if (k == 1) { w.FillBoundary(d, g, level, dir); want = {2, id, state, &d, &g, nullptr, level, int(dir)}; c.check(d.x == (none ? 0 : -id), "side_effect", ""); }
    else if (k == 2) { w.PreAdvanceHierarchy(g); want = {7, id, state, &g}; none |= cls == 0; }
    else { // casts give the object itself or nothing
      A* a = w.Cast<A>(); B* b = w.Cast<B>(); const Any& cw = w; const A* ca = cw.Cast<const A>(); const B* cb = cw.Cast<const B>();
      c.check((a != nullptr) == (id >= 0 && cls == 0) && (b != nullptr) == (id >= 0 && cls == 1) && ca == a && cb == b, "cast", vm::fmt("class %d id %d", cls, id)); if (a) c.check(a->id == id && a->state == state, "cast", ""); if (b) c.check(b->id == id && b->state == state, "cast", ""); c.check(w.Cast<int>() == nullptr, "cast", ""); return;
    }
    c.checkf(J->log.size() == n + (none ? 0 : 1) && (none || J->log.back() == want), "forward", [&] { return vm::fmt("function %d: %ld calls, id %d state %ld", k, long(J->log.size() - n), id, state); });
  } };
struct IdW { using Any = AnyInitialData<Grid>; using A = Probe<0>; using B = Probe<2>; static constexpr bool empty = true;
  static void call(vm::Case& c, Any& w, int id, long state, int) { Level l; Grid g; int level = c.rng.range(0, 9); double t = c.rng.uniform(0, 5); std::size_t n = J->log.size(); w.InitializeData(l, g, level, Duration(t)); bool none = id < 0; Rec want{3, id, state, &l, &g, nullptr, level, -1, t}; c.check(l.y == (none ? 0 : id), "side_effect", ""); c.check(J->log.size() == n + (none ? 0 : 1) && (none || J->log.back() == want), "forward", vm::fmt("id %d state %ld", id, state)); } };
struct TgW { using Any = AnyTaggingMethod<Grid>; using A = Probe<0>; using B = Probe<2>; static constexpr bool empty = true;
  static void call(vm::Case& c, Any& w, int id, long state, int) { Tags t{c.rng.range(0, 99)}; Grid g; int level = c.rng.range(0, 9); double tm = c.rng.uniform(0, 5); std::size_t n = J->log.size(); w.TagCellsForRefinement(t, g, level, Duration(tm)); bool none = id < 0; Rec want{4, id, state, nullptr, &g, nullptr, level, t.id, tm}; c.check(g.cycles == (none ? 0 : id), "side_effect", ""); c.check(J->log.size() == n + (none ? 0 : 1) && (none || J->log.back() == want), "forward", vm::fmt("id %d state %ld", id, state)); } };
template <int R> struct LimW { using Any = AnyLimiter<R>; using A = Probe<0>; using B = Probe<2>; static constexpr bool empty = true;
  static void call(vm::Case& c, Any& w, int id, long state, int) {
    double g[8] = {}, u[8]; for (double& x : u) x = c.rng.uniform(-1, 1); std::array<std::ptrdiff_t, R> e; e.fill(2); std::array<std::ptrdiff_t, R> o{}; CutCellData<R> geom; Index<R> idx{}; for (int d = 0; d < R; ++d) idx[d] = c.rng.range(0, 1);
    PatchDataView<double, R> gv(mdspan<double, R>(g, e), o); PatchDataView<const double, R> uv(mdspan<const double, R>(u, e), o); std::array<StridedDataView<double, R>, R> grad; grad.fill(gv.Subview(gv.Box())); StridedDataView<const double, R> us = uv.Subview(uv.Box()); Coordinates<R> dx; dx.setConstant(c.rng.uniform(0, 1)); dx[0] = c.rng.uniform(0, 1);
    std::size_t n = J->log.size(); w.LimitGradientsAtIndex(grad, us, geom, idx, dx); bool none = id < 0; Rec want{5, id, state, &grad, &geom, &idx, int(idx[0]), -1, dx[0] + us(idx)}; c.check(gv(idx) == (none ? 0 : id), "side_effect", ""); c.check(J->log.size() == n + (none ? 0 : 1) && (none || J->log.back() == want), "forward", vm::fmt("id %d state %ld", id, state));
  } };
template <std::size_t R, typename B_> struct GeoW { using Any = PolymorphicGeometry<R>; using A = Probe<0>; using B = B_; static constexpr bool empty = false;
  static void call(vm::Case& c, Any& w, int id, long state, int) { std::array<double, R> x; for (double& y : x) y = c.rng.uniform(-9, 9); std::size_t n = J->log.size(); double d = c.rng.coin() ? w.ComputeDistanceTo(x) : static_cast<const Any&>(w).Base().ComputeDistanceTo(x); Rec want{6, id, state, nullptr, nullptr, nullptr, 0, -1, x[0]}; c.check(d == x[0] + 2 * x[R - 1] + id, "result", ""); c.check(J->log.size() == n + 1 && J->log.back() == want, "forward", vm::fmt("id %d state %ld", id, state));
    std::unique_ptr<Geometry<R>> cl = w.Clone(); double d2 = cl->ComputeDistanceTo(x); c.check(d2 == d && J->log.back().state == state + 1, "clone", ""); } };

// ---------------------------------------------------------------- random histories
template <typename W> void history(vm::Case& c, const char* name) {
  using Any = typename W::Any; vm::Rng& r = c.rng; Journal jn; J = &jn; long ops = 0, calls = 0; std::string trace; { 
  struct Slot { std::optional<Any> any; int id = -1; long state = 0; int cls = 0; }; constexpr int N = 5; std::array<Slot, N> s; int next = 1; int len = r.range(5, 60);
  auto live = [&] { long n = 0; for (auto& x : s) n += x.any && x.id >= 0; return n; };
  for (int k = 0; k < len; ++k) {
    Slot &x = s[std::size_t(r.range(0, N - 1))], &y = s[std::size_t(r.range(0, N - 1))]; int op = r.range(0, 12); if (!x.any && op > 3) op = r.range(0, 2); ++ops; trace += vm::fmt("%d:%ld,%ld ", op, long(&x - s.data()), long(&y - s.data()));
    auto fresh = [&](auto store) { int id = next++; long st = r.range(0, 5); int cls = r.range(0, 1); if (cls == 0) { typename W::A p(id, st); store(p, r.coin()); } else { typename W::B p(id, st); store(p, r.coin()); } x.id = id; x.state = st; x.cls = cls; };
    switch (op) {
    case 0: if constexpr (W::empty) { x.any.emplace(); x.id = -1; } break;
    case 1: case 2: x.any.reset(); fresh([&](auto& p, bool mv) { if (mv) x.any.emplace(std::move(p)); else { const auto& cp = p; x.any.emplace(cp); } }); break;
    case 3: if (y.any && &x != &y) { const Any& cy = *y.any; if (r.coin()) x.any.emplace(cy); else x.any.emplace(*y.any); x.id = y.id; x.state = y.state; x.cls = y.cls; } break;
    case 4: if constexpr (std::is_copy_assignable_v<Any>) if (y.any) { const Any& cy = *y.any; Any& res = *x.any = cy; c.check(&res == &*x.any, "assignment_result", ""); x.id = y.id; x.state = y.state; x.cls = y.cls; } break;
    case 5: if constexpr (W::empty) if (y.any && &x != &y) { Any& res = *x.any = std::move(*y.any); c.check(&res == &*x.any, "assignment_result", ""); x.id = y.id; x.state = y.state; x.cls = y.cls; y.id = -1; } break;
    case 6: if constexpr (W::empty) if (y.any && &x != &y) { x.any.reset(); x.any.emplace(std::move(*y.any)); x.id = y.id; x.state = y.state; x.cls = y.cls; y.id = -1; } break;
    case 7: x.any.reset(); break;
    case 8: if constexpr (std::is_copy_assignable_v<Any>) fresh([&](auto& p, bool mv) { if (mv) *x.any = std::move(p); else *x.any = p; }); break;
    case 9: if constexpr (W::empty) if (y.any && &x != &y) { std::swap(*x.any, *y.any); std::swap(x.id, y.id); std::swap(x.state, y.state); std::swap(x.cls, y.cls); } break;
    case 10: if constexpr (W::empty) if (x.id >= 0) { // an exception of the plug-in reaches the caller, the wrapper stays usable
      jn.throw_id = x.id; bool caught = false; vm::Rng keep = r; try { if constexpr (std::is_same_v<W, BcW>) { Data d; Grid g; x.any->FillBoundary(d, g, 0); } else W::call(c, *x.any, x.id, x.state, x.cls); } catch (Boom& b) { caught = b.id == x.id; } (void)keep; jn.throw_id = -1; c.check(caught, "exception_lost", ""); ++x.state; } break;
    default: { std::size_t n = jn.log.size(); W::call(c, *x.any, x.any ? x.id : -1, x.state, x.cls); ++calls; for (std::size_t m = n; m < jn.log.size(); ++m) if (jn.log[m].id == x.id && m == n) ++x.state; } break;
    }
    c.checkf(jn.live == live(), "census", [&] { return std::string(name) + vm::fmt(": %ld plug-ins alive, %ld expected; history (op:slot,slot) ", jn.live, live()) + trace; });
    c.checkf(!jn.dead_call, "lifetime", [&] { return std::string(name) + ": a plug-in was used after its end or without its contents; history " + trace; });
    if (jn.live != live() || jn.dead_call) break;
  }
  // everything still there, each with its own state
  for (auto& x : s) if (x.any) { W::call(c, *x.any, x.id, x.state, x.cls); }
  c.event("operations", ops); c.event("calls", calls); c.event("plugins", next - 1); }
  c.check(jn.live == 0, "leak", vm::fmt("%s: %ld plug-ins left", name, jn.live)); c.check(!jn.dead_call, "lifetime", name); c.sig(std::string(name) + trace); J = nullptr;
}
ORACLE("boundary_condition", 40000, 150000) { history<BcW>(c, "AnyBoundaryCondition"); }
ORACLE("initial_data", 40000, 150000) { history<IdW>(c, "AnyInitialData"); }
ORACLE("tagging_method", 40000, 150000) { history<TgW>(c, "AnyTaggingMethod"); }
ORACLE("limiter", 40000, 150000) { if (c.rng.coin()) history<LimW<2>>(c, "AnyLimiter<2>"); else history<LimW<3>>(c, "AnyLimiter<3>"); }
ORACLE("geometry", 40000, 150000) { if (c.rng.coin()) history<GeoW<2, Geo2>>(c, "PolymorphicGeometry<2>"); else history<GeoW<3, Probe<2>>>(c, "PolymorphicGeometry<3>"); }

// unions and inverses of geometries: independent of the objects they were made from
ORACLE("geometry_union", 20000, 50000) {
  vm::Rng& r = c.rng; Journal jn; J = &jn; { int n = r.range(1, 6); std::vector<int> ids; std::unique_ptr<PolymorphicUnion<2>> u; std::optional<PolymorphicGeometry<2>> p; std::array<double, 2> x{r.uniform(-5, 5), r.uniform(-5, 5)};
  { std::vector<PolymorphicGeometry<2>> v; v.reserve(r.coin() ? 0 : 10); for (int k = 0; k < n; ++k) { ids.push_back(r.range(1, 99)); if (r.coin()) v.emplace_back(Probe<0>(ids.back(), 0)); else v.emplace_back(Geo2(ids.back(), 0)); } u = std::make_unique<PolymorphicUnion<2>>(v); p.emplace(*u); if (r.coin()) { PolymorphicGeometry<2> q(*p); p.reset(); p.emplace(q); } }
  std::unique_ptr<Geometry<2>> cl = u->Clone(); double want = -1e300; int lo = *std::min_element(ids.begin(), ids.end()), hi = *std::max_element(ids.begin(), ids.end()); double a = u->ComputeDistanceTo(x), b = p->ComputeDistanceTo(x), d = cl->ComputeDistanceTo(x), base = x[0] + 2 * x[1]; (void)want;
  c.check(a == base + lo || a == base + hi, "union", vm::fmt("%.17g of %.17g + %d..%d", a, base, lo, hi)); c.check(a == b && a == d, "clone", vm::fmt("%.17g %.17g %.17g", a, b, d)); c.check(long(jn.log.size()) == 3 * n, "forward", vm::fmt("%ld calls for %d parts", long(jn.log.size()), n)); c.event("parts", n); c.sig(vm::fmt("%d %d %d %.6f", n, lo, hi, x[0]));
  Polygon hs(Polygon::Vector{0, 1, 1, 0, 0}, Polygon::Vector{0, 0, 1, 1, 0}); std::array<double, 2> y{r.uniform(-2, 2), r.uniform(-2, 2)}; Invert<Polygon> inv(hs); c.check(inv.ComputeDistanceTo(y) == -hs.ComputeDistanceTo(y), "invert", ""); PolymorphicGeometry<2> ph(hs), pi(inv), pc(pi); c.check(ph.ComputeDistanceTo(y) == hs.ComputeDistanceTo(y) && pc.ComputeDistanceTo(y) == -hs.ComputeDistanceTo(y), "clone", ""); }
  c.check(jn.live == 0 && !jn.dead_call, "leak", vm::fmt("%ld", jn.live)); J = nullptr;
}

// ---------------------------------------------------------------- callbacks and outputs
struct MoveOnly { std::unique_ptr<int> p; };
ORACLE("function_ref", 20000, 100000) {
  vm::Rng& r = c.rng; int calls = 0, tag = r.range(1, 1000); double arg = r.uniform(-1, 1); const void* seen = nullptr;
  auto f = [&calls, &seen, tag](const double& x, int& y) { ++calls; seen = &x; y += tag; return x * tag; };
  function_ref<double(const double&, int&)> fr(f); function_ref<double(const double&, int&)> fr2(fr), fr3(f); fr3 = fr2; int y = 3; double got = (r.coin() ? fr : r.coin() ? fr2 : fr3)(arg, y); c.check(calls == 1 && got == arg * tag && y == 3 + tag && seen == &arg, "forward", vm::fmt("%d calls", calls));
  auto g = [&](MoveOnly m) { ++calls; return MoveOnly{std::make_unique<int>(*m.p + tag)}; }; function_ref<MoveOnly(MoveOnly)> gr(g); MoveOnly res = gr(MoveOnly{std::make_unique<int>(7)}); c.check(*res.p == 7 + tag && calls == 2, "move_only", "");
  std::vector<double> v{1, 2, 3}; auto h = [&](std::vector<double> x) -> std::size_t { return x.size(); }; function_ref<std::size_t(std::vector<double>)> hr(h); c.check(hr(v) == 3 && v.size() == 3, "by_value", "");
  auto ref = [&](int& x) -> int& { return x; }; function_ref<int&(int&)> rr(ref); c.check(&rr(y) == &y, "reference", ""); struct Mut { int n = 0; int operator()() { return ++n; } } m; function_ref<int()> mr(m); mr(); mr(); c.check(m.n == 2 && mr() == 3, "mutable", "");
  auto th = [&]() -> int { throw Boom{tag}; }; function_ref<int()> tr(th); bool ok = false; try { tr(); } catch (Boom& b) { ok = b.id == tag; } c.check(ok, "exception_lost", ""); c.event("calls", calls + 6); c.sig(vm::fmt("%d %.9f", tag, arg));
}
ORACLE("outputs", 20000, 60000) {
  vm::Rng& r = c.rng; Journal jn; J = &jn; { std::vector<std::pair<int, const Grid*>> log; int n = r.range(1, 5); std::vector<std::unique_ptr<BasicOutput<Grid>>> outs; std::vector<std::ptrdiff_t> freq;
  for (int k = 0; k < n; ++k) { freq.push_back(r.range(1, 4)); auto p = std::make_shared<Probe<4>>(k, 0); auto fn = [&log, k, p](const Grid& g) { p->hit({8}); log.push_back({k, &g}); }; if (r.coin()) outs.push_back(MakeOutput<Grid>({freq.back()}, {}, fn)); else outs.push_back(std::make_unique<AnyOutput<Grid>>(std::vector<std::ptrdiff_t>{freq.back()}, std::vector<Duration>{}, fn)); }
  Grid g; int steps = r.range(1, 12); for (int s = 0; s < steps; ++s) { g.cycles = s; g.time = s * 0.1; for (int k = 0; k < n; ++k) { std::size_t m = log.size(); bool due = outs[k]->ShallOutputNow(g); c.check(due == (s % freq[k] == 0), "due", vm::fmt("cycle %d frequency %ld", s, long(freq[k]))); if (due) { (*outs[k])(g); c.check(log.size() == m + 1 && log.back().first == k && log.back().second == &g, "forward", ""); } } }
  c.event("outputs", long(log.size())); c.sig(vm::fmt("%d %d %ld", n, steps, long(log.size()))); }
  c.check(jn.live == 0 && !jn.dead_call, "leak", vm::fmt("%ld", jn.live)); J = nullptr;
}

// ---------------------------------------------------------------- value semantics of solvers, reactors and states
ORACLE("ode_solver", 600, 15000) {
  vm::Rng& r = c.rng; RadauSolver s; s.relative_tolerance = r.logu(1e-10, 1e-4); s.absolute_tolerance = s.relative_tolerance * r.logu(1e-3, 1); s.initial_time_step_size = r.logu(1e-6, 1e-3); s.jacobian_threshhold = r.choose({0.001, 0.01, 0.1}); const OdeSolver& base = s; long calls = 0, bad = 0; double lam = -r.logu(0.1, 1e3), w = r.uniform(0, 3); std::vector<double> y0{r.uniform(-1, 1), r.uniform(-1, 1)}; double t0 = r.uniform(-1, 1), dt = r.logu(1e-3, 1);
  auto rhs = [&](span<double> f, span<const double> y, double t) { ++calls; if (f.size() != 2 || y.size() != 2) ++bad; f[0] = lam * (y[0] - std::cos(t)) - std::sin(t); f[1] = -w * y[1] + y[0]; };
  auto jac = [&](span<double> j, span<const double> y, double) { if (j.size() != 4 || y.size() != 2) ++bad; j[0] = lam; j[1] = 1; j[2] = 0; j[3] = -w; };
  auto solve = [&](const OdeSolver& o, int mode, long* fb) { std::vector<double> y = y0; long n = 0; double last = t0; auto feed = [&](span<const double> z, double t) { ++n; if (z.size() != 2 || t < last) ++bad; last = t; }; try { if (mode == 0) o.Integrate(rhs, y, t0, dt); else if (mode == 1) o.Integrate(rhs, y, t0, dt, OdeSolver::feedback_type(feed)); else if (mode == 2) o.Integrate(rhs, y, t0, dt, OdeSolver::feedback_type(feed), OdeSolver::jacobian_type(jac)); } catch (std::exception&) { y[0] = -77; } if (fb) *fb = n; return y; };
  long n0 = 0, n1 = 0; auto a = solve(base, 1, &n0); long c0 = calls; std::unique_ptr<OdeSolver> cl = base.Clone(); std::unique_ptr<OdeSolver> cl2 = cl->Clone(); cl.reset(); calls = 0; auto b = solve(*cl2, 1, &n1);
  c.check(a == b && n0 == n1 && calls == c0, "clone", vm::fmt("%.17g %.17g in %ld calls, clone %.17g %.17g in %ld calls", a[0], a[1], c0, b[0], b[1], calls)); auto p = dynamic_cast<RadauSolver*>(cl2.get()); c.check(p && p->relative_tolerance == s.relative_tolerance && p->absolute_tolerance == s.absolute_tolerance && p->initial_time_step_size == s.initial_time_step_size && p->jacobian_threshhold == s.jacobian_threshhold, "options", "");
  if (p) { p->relative_tolerance = 1e-2; auto d = solve(base, 1, nullptr); c.check(d == a, "clone_not_independent", ""); } auto e = solve(base, 0, nullptr); c.check(e == a, "feedback_changes_result", ""); long n2 = 0; auto f = solve(base, 2, &n2); c.check(f[0] == -77 || n2 > 0, "feedback_lost", ""); c.check(bad == 0, "arguments", "");
  if (f[0] != -77 && a[0] != -77) c.checkf(std::abs(f[0] - a[0]) + std::abs(f[1] - a[1]) <= 1e5 * (s.relative_tolerance + s.absolute_tolerance), "jacobian", [&] { return vm::fmt("%.17g %.17g with jacobian %.17g %.17g", a[0], a[1], f[0], f[1]); });
  auto made = OdeSolverFactory::GetInstance().MakeSolver("RADAU"); c.check(dynamic_cast<RadauSolver*>(made.get()) != nullptr, "factory", ""); c.event("rhs_calls", calls); c.sig(vm::fmt("%.9f %ld", lam, n0));
}
ORACLE("reactor", 400, 12000) {
  vm::Rng& r = c.rng; static Burke2012 mech; std::vector<std::optional<FlameMasterReactor>> s(4); struct M { std::vector<double> Y; double T = 300, p = 101325; bool dead = false; }; std::vector<M> m(4); std::string trace; int n = mech.getNSpecs();
  auto snap = [&](const FlameMasterReactor& x) { M o; auto y = x.GetMassFractions(); o.Y.assign(y.begin(), y.end()); o.T = x.GetTemperature(); o.p = x.GetPressure(); return o; };
  auto close = [](double a, double b) { return std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)) + 1e-300; };
  for (int k = 0, len = r.range(4, 25); k < len; ++k) {
    std::size_t i = std::size_t(r.range(0, 3)), j = std::size_t(r.range(0, 3)); int op = r.range(0, 7); if (!s[i] || (m[i].dead && op > 3)) op = 0; trace += vm::fmt("%d:%d,%d ", op, int(i), int(j));
    auto set = [&] { std::vector<double> Y(n + 0UL); double sum = 0; for (auto& y : Y) { y = r.coin(0.3) ? 0.0 : r.u01(); sum += y; } if (sum == 0) { Y[0] = sum = 1; } for (auto& y : Y) y /= sum; s[i]->SetMassFractions(Y); s[i]->SetTemperature(r.uniform(300, 2500)); s[i]->SetPressure(r.logu(1e4, 1e6)); m[i] = snap(*s[i]); };
    switch (op) {
    case 0: s[i].emplace(mech); m[i] = M{}; m[i] = snap(*s[i]); set(); break;
    case 1: if (s[j] && !m[j].dead && i != j) { s[i].emplace(*s[j]); m[i] = m[j]; } break;
    case 2: if (s[j] && !m[j].dead) { *s[i] = *s[j]; m[i] = m[j]; } break;
    case 3: if (s[j] && !m[j].dead && i != j) { *s[i] = std::move(*s[j]); m[i] = m[j]; m[j].dead = true; } break;
    case 4: set(); break;
    case 5: if (s[j] && !m[j].dead && i != j) { std::swap(*s[i], *s[j]); std::swap(m[i], m[j]); } break;
    case 6: if (r.coin(0.3)) { try { s[i]->Advance(r.logu(1e-9, 1e-6)); } catch (std::exception&) {} m[i] = snap(*s[i]); } break;
    default: s[i]->SetTemperature(r.uniform(300, 2500)); m[i] = snap(*s[i]); break;
    }
    for (std::size_t q = 0; q < 4; ++q) if (s[q] && !m[q].dead) { M now = snap(*s[q]); bool ok = close(now.T, m[q].T) && close(now.p, m[q].p) && now.Y.size() == m[q].Y.size(); for (std::size_t z = 0; ok && z < now.Y.size(); ++z) ok = close(now.Y[z], m[q].Y[z]); c.checkf(ok, "state", [&] { return vm::fmt("reactor %d holds T %.17g p %.17g, expected %.17g %.17g; history ", int(q), now.T, now.p, m[q].T, m[q].p) + trace; });
      auto y = s[q]->GetMassFractions(); (void)y; double h = s[q]->GetEnthalpy(), u = s[q]->GetInternalEnergy(); c.check(std::isfinite(h) && std::isfinite(u), "state", trace); }
  }
  for (std::size_t q = 0; q < 4; ++q) for (std::size_t z = q + 1; z < 4; ++z) if (s[q] && s[z] && !m[q].dead && !m[z].dead) { c.check(s[q]->GetMassFractions().data() != s[z]->GetMassFractions().data(), "shared_storage", trace); c.check(&s[q]->GetOdeSolver() != &s[z]->GetOdeSolver(), "shared_solver", trace); }
  c.sig(trace); c.event("histories");
}
template <typename E> void states(vm::Case& c, std::unique_ptr<md::EqAdapter<E>> e, const char* name) {
  vm::Rng& r = c.rng; auto draw = [&] { std::vector<double> q(e->ncomp + 0UL); e->random(r, md::Regime::mild, q.data()); return q; }; auto q0 = draw(), q1 = draw(); Complete<E> a(e->eqn), b(e->eqn); md::unflat(a, q0.data()); md::unflat(b, q1.data()); auto val = [&](const Complete<E>& x) { std::vector<double> v(e->ncomp + 0UL); md::flat(x, v.data()); return v; };
  const CompleteBase<E>& base = b; Complete<E> d(base); c.check(val(d) == q1, "from_base", name); Complete<E>& res = (a = base); c.check(&res == &a && val(a) == q1, "assign_base", name); md::unflat(b, q0.data()); c.check(val(a) == q1 && val(d) == q1, "copy_not_independent", name); Complete<E> mv(std::move(d)); c.check(val(mv) == q1, "move", name); a = std::move(mv); c.check(val(a) == q1, "move", name); Complete<E>& self = a; a = self; c.check(val(a) == q1, "self_assignment", name);
  Conservative<E> k(e->eqn), l(e->eqn); AsCons(b); const ConservativeBase<E>& cb = AsCons(b); k = cb; Conservative<E> k2(cb); std::vector<double> f(e->ncons + 0UL); md::flat(k, f.data()); bool ok = true; for (int i = 0; i < e->ncons; ++i) ok &= f[i] == q0[i]; c.check(ok, "assign_base", name); (void)l;
  CompleteArray<E> ca(e->eqn), cb2(e->eqn); std::vector<double> q8; for (double x : q0) for (int z = 0; z < md::W; ++z) q8.push_back(x + z); md::unflat8(ca, q8.data()); cb2 = ca; std::vector<double> z8(q8.size()); md::unflat8(ca, z8.data()); md::flat8(cb2, z8.data()); c.check(z8 == q8, "copy_not_independent", name);
  md::Field fld(E::Rank(), e->ncomp, {0, 0, 0}, {3, E::Rank() > 1 ? 2 : 1, E::Rank() > 2 ? 2 : 1}, 1, 0, 2), fld2 = fld; auto v = md::make_view<Complete<E>>(e->eqn, fld), w = md::make_view<Complete<E>>(e->eqn, fld2); using View_ = decltype(v); const ViewBase<Complete<E>, layout_stride, E::Rank()>& vb = v; View_& wres = (w = vb); c.check(&wres == &w && get<0>(w).Mapping().required_span_size() == get<0>(v).Mapping().required_span_size() && get<0>(w).Span().data() == get<0>(v).Span().data(), "assign_view", name); View_ w2(vb); c.check(get<0>(w2).Span().data() == get<0>(v).Span().data(), "assign_view", name);
  E eq2 = e->eqn; E eq3(eq2); eq2 = eq3; Complete<E> p(e->eqn), q(e->eqn); md::unflat(p, q1.data()); Conservative<E> cc(e->eqn); cc = AsCons(p); CompleteFromCons(e->eqn, p, cc); CompleteFromCons(eq2, q, cc); c.check(val(p) == val(q), "equation_copy", name); c.event("states", 12); c.sig(name + vm::fmt("%.9g", q0[0]));
}
ORACLE("states", 20000, 50000) {
  vm::Rng& r = c.rng; switch (r.range(0, 2)) { case 0: return states<PerfectGas<1>>(c, md::make_gas<1>(r), "PerfectGas1"); case 1: return states<PerfectGas<2>>(c, md::make_gas<2>(r), "PerfectGas2"); default: return states<PerfectGas<3>>(c, md::make_gas<3>(r), "PerfectGas3"); }
}
ORACLE("omp_local", 500, 10000) { // every thread slot holds its own copy
  vm::Rng& r = c.rng; Journal jn; J = &jn; { OmpLocal<Probe<5>> a(Probe<5>(r.range(1, 99), 4)); long n0 = jn.live; c.check(n0 >= 1, "copies", vm::fmt("%ld", n0)); OmpLocal<Probe<5>> b(a); c.check(jn.live == 2 * n0, "copies", vm::fmt("%ld %ld", jn.live, n0)); a->hit({9}); c.check(b->state == 4 && a->state == 5 && (*a).state == 5 && a.Get().state == 5 && &*a == &a.Get() && &*a != &*b, "independent", ""); OmpLocal<double> m(r.uniform(1, 2)); double keep = m.Min(); *m = keep - 1; c.check(m.Min() == keep - 1, "minimum", ""); c.event("copies", jn.live); c.sig(vm::fmt("%d", a->id)); }
  c.check(jn.live == 0 && !jn.dead_call, "leak", ""); J = nullptr;
}
} // namespace
