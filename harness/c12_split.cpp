// C12: operator splitting. Every sub-operator call is recorded in a log; the
// log is compared with the sequence the splitting is documented to produce.
#include "vm.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include <Eigen/Dense>
#include <memory>
using namespace fub;
namespace {
struct Call { int op; double dt; };
using Res = Result<void, TimeStepTooLarge>;

// reference recursion
void reference(int kind, double dt, std::vector<int> ops, std::vector<Call>& out) {
  if (ops.size() == 1) { out.push_back({ops[0], dt}); return; }
  std::vector<int> rest(ops.begin() + 1, ops.end());
  if (kind == 0) { out.push_back({ops[0], dt}); reference(kind, dt, rest, out); }
  else if (kind == 1) {
    // palindrome a1/2 a2/2 a2/2 a1/2
    out.push_back({ops[0], 0.5 * dt}); reference(kind, 0.5 * dt, rest, out); reference(kind, 0.5 * dt, rest, out); out.push_back({ops[0], 0.5 * dt});
  } else { out.push_back({ops[0], 0.5 * dt}); reference(kind, dt, rest, out); out.push_back({ops[0], 0.5 * dt}); }
}
const char* names[] = {"godunov", "strang", "lumped"};

std::unique_ptr<SplittingMethod> make(int kind) {
  if (kind == 0) return std::make_unique<GodunovSplitting>();
  if (kind == 1) return std::make_unique<StrangSplitting>();
  return std::make_unique<StrangSplittingLumped>();
}
AnySplitMethod any(int kind) {
  if (kind == 0) return AnySplitMethod(GodunovSplitting());
  if (kind == 1) return AnySplitMethod(StrangSplitting());
  return AnySplitMethod(StrangSplittingLumped());
}

struct Op {
  int id; std::vector<Call>* log; int fail_at; double fail_dt;
  Res operator()(Duration dt) const {
    int k = static_cast<int>(log->size());
    log->push_back({id, dt.count()});
    if (k == fail_at) { TimeStepTooLarge e; e.level = 7 * id + 3; e.dt = Duration(fail_dt); return e; }
    return boost::outcome_v2::success();
  }
};

Res run(const SplittingMethod& m, int n, Duration dt, std::vector<Op>& o, bool rec) {
  switch (n) {
  case 2: return rec ? m.AdvanceRecursively(dt, o[0], o[1]) : m.Advance(dt, o[0], o[1]);
  case 3: return rec ? m.AdvanceRecursively(dt, o[0], o[1], o[2]) : m.Advance(dt, o[0], o[1], o[2]);
  case 4: return m.AdvanceRecursively(dt, o[0], o[1], o[2], o[3]);
  default: return m.AdvanceRecursively(dt, o[0], o[1], o[2], o[3], o[4]);
  }
}
}

ORACLE("split.log", 4000, 60000) {
  int kind = c.rng.range(0, 2), n = c.rng.range(2, 5); bool rec = c.rng.coin() || n > 3; int form = c.rng.range(0, 3);
  double dt = c.rng.choose({1.0, 0.0, 1e-300, 1e300}); if (c.rng.coin(0.8)) dt = c.rng.logu(1e-12, 1e6);
  std::vector<int> ids(n); for (int i = 0; i < n; ++i) ids[i] = i;
  std::vector<Call> want;
  bool three_strang = kind == 1 && n == 3 && !rec && form == 0;
  if (n == 3 && !rec && kind == 1 && form == 0) for (int i : {0, 1, 2, 2, 1, 0}) want.push_back({i, 0.5 * dt});
  else reference(kind, dt, ids, want);
  (void)three_strang;
  int fail_at = c.rng.coin(0.5) ? c.rng.range(0, static_cast<int>(want.size()) - 1) : -1; double fdt = c.rng.logu(1e-9, 1);
  std::vector<Call> log; std::vector<Op> ops; for (int i = 0; i < n; ++i) ops.push_back({i, &log, fail_at, fdt});
  Res r = boost::outcome_v2::success();
  if (form == 0) r = run(*make(kind), n, Duration(dt), ops, rec);
  else {
    AnySplitMethod a = any(form == 1 ? kind : (kind + 1) % 3);
    if (form == 2) { if (kind == 0) a = GodunovSplitting(); else if (kind == 1) a = StrangSplitting(); else a = StrangSplittingLumped(); }
    if (form == 3) { AnySplitMethod b = any(kind); AnySplitMethod d(b); a = std::move(b); AnySplitMethod e(std::move(d)); a = e; }
    r = run(a, n, Duration(dt), ops, rec);
  }
  if (fail_at >= 0) want.resize(fail_at + 1);
  std::string id = vm::fmt("%s n=%d rec=%d form=%d fail=%d dt=%.17g", names[kind], n, (int)rec, form, fail_at, dt);
  c.describe(id + vm::fmt(" calls=%zu", log.size()));
  c.require(log.size() == want.size(), "call_count", id + vm::fmt(" got %zu want %zu", log.size(), want.size()));
  std::vector<double> sum(n, 0.0);
  std::string s = names[kind];
  for (size_t i = 0; i < log.size(); ++i) {
    c.check(log[i].op == want[i].op, "order", id);
    c.check(log[i].dt == want[i].dt, "fraction", id + vm::fmt(" call %zu op %d dt %.17g want %.17g", i, log[i].op, log[i].dt, want[i].dt));
    sum[log[i].op] += log[i].dt; s += vm::fmt(" %d:%g", log[i].op, dt ? log[i].dt / dt : 0);
  }
  if (fail_at < 0) {
    c.check(bool(r), "success_reported", id);
    if (dt > 1e-290) for (int i = 0; i < n; ++i) c.rel(sum[i], dt, 1e-14, "fractions_sum", id);
  } else {
    c.check(!r, "failure_reported", id);
    if (!r) { c.check(r.error().level == 7 * log.back().op + 3 && r.error().dt.count() == fdt, "failure_payload", id); }
  }
  c.event("calls", log.size()); c.event(fail_at >= 0 ? "failed_steps" : "full_steps"); c.sig(s + (fail_at >= 0 ? "!" : ""));
}

// order of accuracy on non-commuting matrices
ORACLE("split.order", 150, 3000) {
  int kind = c.rng.range(0, 2), n = c.rng.range(2, 4); bool rec = c.rng.coin() || n > 3;
  using M = Eigen::Matrix3d; std::vector<M> A(n);
  for (auto& a : A) { for (int i = 0; i < 9; ++i) a(i) = c.rng.uniform(-1, 1); a /= a.norm(); }
  auto expm = [](const M& m) { M r = M::Identity(), t = M::Identity(); for (int k = 1; k < 30; ++k) { t = t * m / k; r += t; } return r; };
  M S = M::Zero(); for (auto& a : A) S += a;
  Eigen::Vector3d u0(c.rng.uniform(-1, 1), c.rng.uniform(-1, 1), c.rng.uniform(-1, 1)); u0.normalize();
  auto m = make(kind); double err[3];
  for (int k = 0; k < 3; ++k) {
    int steps = 16 << k; double dt = 1.0 / steps; Eigen::Vector3d u = u0;
    auto op = [&](int i) { return [&, i](Duration d) -> Res { u = expm(A[i] * d.count()) * u; return boost::outcome_v2::success(); }; };
    for (int s = 0; s < steps; ++s) {
      auto o0 = op(0), o1 = op(1), o2 = op(n > 2 ? 2 : 0), o3 = op(n > 3 ? 3 : 0);
      if (n == 2) (void)m->Advance(Duration(dt), o0, o1);
      else if (n == 3) { if (rec) (void)m->AdvanceRecursively(Duration(dt), o0, o1, o2); else (void)m->Advance(Duration(dt), o0, o1, o2); }
      else (void)m->AdvanceRecursively(Duration(dt), o0, o1, o2, o3);
    }
    err[k] = (u - expm(S) * u0).norm();
  }
  double p = std::log2(err[1] / err[2]), want = kind == 0 ? 1.0 : 2.0;
  c.describe(vm::fmt("%s n=%d rec=%d order %.3f err %.2e", names[kind], n, (int)rec, p, err[2]));
  // the leading error term may vanish for this data, then the order is higher
  c.check(p > want - 0.35 || err[2] < 1e-12, "order", c.description);
  c.check(err[2] < (kind == 0 ? 0.2 : 0.02), "error_size", c.description);
  c.event("order_experiments"); c.sig(vm::fmt("%d %d %d", kind, n, (int)rec));
}

ORACLE("split.directions", 400, 4000) {
  int cycle = c.rng.range(0, 1000), first = c.rng.range(0, 9);
  auto test = [&](auto d) {
    int R = static_cast<int>(d.size()); std::vector<int> got; for (auto x : d) got.push_back(static_cast<int>(x));
    bool odd = (cycle % 2 + first) % 2; std::vector<int> want; for (int i = 0; i < R; ++i) want.push_back(odd ? R - 1 - i : i);
    c.check(got == want, "sweep_order", vm::fmt("rank %d cycle %d sub %d", R, cycle, first)); c.sig(vm::fmt("%d %d", R, (int)odd));
  };
  test(MakeSplitDirections<1>(cycle, {first, 2})); test(MakeSplitDirections<2>(cycle, {first, 2})); test(MakeSplitDirections<3>(cycle, {first, 2}));
  c.event("sweeps", 3);
}
