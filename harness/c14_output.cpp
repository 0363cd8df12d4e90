// C14: output schedules. Real schedule classes (single, grouped, nested, built
// from arguments or from option maps) are driven by fub::RunSimulation with a
// scripted solver, or stepped directly; the firings are compared with the set
// of states at which a schedule is due.
#include "loop_mock.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/CounterOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/output/OutputFactory.hpp"
#include <pybind11/embed.h>
using namespace loopmock;
namespace py = pybind11;
namespace {
std::unique_ptr<py::scoped_interpreter> g_py;
struct Start2 { Start2() { vm::on_start = [](int& a, char**& v) { start(a, v); g_py = std::make_unique<py::scoped_interpreter>(); }; } } start2;

struct Schedule { std::vector<std::ptrdiff_t> freq; std::vector<double> intervals; int id = 0; };
struct Firing { int id; double t; std::ptrdiff_t cycle; };
std::vector<Firing>* g_fire = nullptr;
constexpr double eps = 1e-12;

struct MapOutput : fub::OutputAtFrequencyOrInterval<Grid> { // made by the factory
  int id; MapOutput(const fub::ProgramOptions& o) : fub::OutputAtFrequencyOrInterval<Grid>(o) { id = fub::GetOptionOr(o, "id", -1); }
  void operator()(const Grid& g) override { g_fire->push_back({id, g.t, g.cycles}); }
};
struct MapOutput2 : MapOutput { int extra; MapOutput2(const fub::ProgramOptions& o, int e) : MapOutput(o), extra(e) { if (e != 77) id = -2; } };

fub::ProgramOptions to_map(const Schedule& s) { fub::ProgramOptions m; if (s.freq.size()) m.emplace("frequencies", py::cast(s.freq)); if (s.intervals.size()) m.emplace("intervals", py::cast(s.intervals)); m.emplace("id", py::cast(s.id)); return m; }
std::unique_ptr<fub::BasicOutput<Grid>> make(vm::Case& c, const Schedule& s) {
  std::vector<Duration> iv; for (double x : s.intervals) iv.push_back(Duration(x)); int id = s.id;
  auto fn = [id](const Grid& g) { g_fire->push_back({id, g.t, g.cycles}); };
  switch (c.rng.range(0, 4)) {
  case 0: return fub::MakeOutput<Grid>(s.freq, iv, fn);
  case 1: return std::make_unique<fub::AnyOutput<Grid>>(s.freq, iv, fn);
  case 2: return std::make_unique<fub::AnyOutput<Grid>>(to_map(s), fn);
  case 3: return std::make_unique<fub::AsOutput<Grid, decltype(fn)>>(to_map(s), fn);
  default: return std::make_unique<MapOutput>(to_map(s));
  }
}
// distance of t to the nearest multiple k*I (k>=0)
double dist(double t, double I) { double k = std::round(t / I); return std::abs(t - k * I); }
// 1 due, 0 not due, -1 within the gray zone of the tolerance
int due(const Schedule& s, double t, std::ptrdiff_t cycle) {
  int r = 0;
  for (auto f : s.freq) if (f > 0 && cycle % f == 0) return 1;
  if (t == 0.0) return 1;
  for (double I : s.intervals) if (I > 0) { double d = dist(t, I); if (d <= 1.5 * eps) return 1; if (d < 4 * eps) r = -1; }
  return r;
}
Schedule random_schedule(vm::Case& c, double T, int id) {
  Schedule s; s.id = id; int nf = c.rng.choose({0, 0, 1, 2}), ni = c.rng.choose({0, 1, 1, 2, 3});
  for (int i = 0; i < nf; ++i) s.freq.push_back(c.rng.coin(0.1) ? 0 : c.rng.coin(0.1) ? -c.rng.range(1, 5) : c.rng.range(1, 25));
  for (int i = 0; i < ni; ++i) {
    double I; switch (c.rng.range(0, 4)) { case 0: I = T / c.rng.range(1, 20); break; case 1: I = c.rng.choose({0.1, 0.2, 0.25, 0.3, 0.5, 0.01}) * (T > 5 ? 5 : T >= 0.5 ? 1 : 0.1); break; case 2: I = T * c.rng.uniform(0.03, 1.5); break; case 3: I = s.intervals.empty() ? 0.07 * T : s.intervals.back() * c.rng.range(2, 4); break; default: I = std::round(T * c.rng.uniform(0.05, 1) * 100) / 100; if (I < 0.02 * T) I = 0.1 * T; }
    if (c.rng.coin(0.08)) I = c.rng.coin() ? 0.0 : -I;
    s.intervals.push_back(I);
  }
  return s;
}
std::string show(const Schedule& s) { std::string r = vm::fmt("#%d f{", s.id); for (auto f : s.freq) r += vm::fmt("%ld ", long(f)); r += "} I{"; for (double x : s.intervals) r += vm::fmt("%.17g ", x); return r + "}"; }
}

ORACLE("output.run", 4000, 80000) {
  std::vector<Firing> fire; g_fire = &fire;
  double T = c.rng.choose({1.0, 0.5, 2.0, 0.3}); if (c.rng.coin(0.4)) T = c.rng.logu(0.05, 20); if (c.rng.coin(0.2)) T = std::round(T * 100) / 100 + 0.01;
  auto w = std::make_shared<World>(); w->seed = c.rng.next(); int nsteps = c.rng.range(3, 80); w->dt_hi = T / nsteps * c.rng.uniform(1, 2); w->dt_lo = w->dt_hi * c.rng.uniform(0.2, 1); w->p_fail = c.rng.choose({0.0, 0.0, 0.2, 1.0}); w->f_lo = 0.4; w->kill_after = 50000;
  fub::RunOptions o; o.final_time = Duration(T); o.cfl = c.rng.choose({0.8, 1.0}); w->cfl = o.cfl; if (c.rng.coin(0.15)) o.max_cycles = c.rng.range(0, 60);
  if (c.rng.coin(0.15)) { w->quantum = c.rng.choose({0.1, 0.05, 0.01, 0.25}); o.cfl = w->cfl = 1.0; w->p_fail = 0; } // times that are multiples up to rounding
  int structure = c.rng.range(0, 4); // 0 single 1 group 2 nested group 3 group from options 4 group with shared schedule
  int n = structure == 0 ? 1 : c.rng.range(1, 4); std::vector<Schedule> sch; for (int i = 0; i < n; ++i) sch.push_back(random_schedule(c, T, i));
  std::unique_ptr<fub::BasicOutput<Grid>> out; Schedule shared; 
  if (structure == 0) out = make(c, sch[0]);
  else if (structure == 1 || structure == 2) {
    auto m = std::make_unique<fub::MultipleOutputs<Grid>>();
    auto inner = std::make_unique<fub::MultipleOutputs<Grid>>();
    for (int i = 0; i < n; ++i) { if (structure == 2 && c.rng.coin()) inner->AddOutput(make(c, sch[i])); else m->AddOutput(make(c, sch[i])); }
    if (c.rng.coin(0.2)) m->AddOutput(std::unique_ptr<fub::BasicOutput<Grid>>());
    if (structure == 2) m->AddOutput(std::move(inner));
    out = std::move(m);
  } else {
    fub::OutputFactory<Grid> fac; c.check(fac.RegisterOutput<MapOutput>("one") && fac.RegisterOutput<MapOutput2>("two", 77), "register"); c.check(!fac.RegisterOutput<MapOutput>("one"), "register twice"); c.check(fac.Contains("one") && !fac.Contains("three") && !fac.MakeOutput("three", {}), "factory");
    fub::ProgramOptions opts; std::vector<py::dict> list;
    if (structure == 4) { shared = random_schedule(c, T, 99); std::vector<int> fr(shared.freq.begin(), shared.freq.end()); if (fr.size()) opts.emplace("frequencies", py::cast(fr)); if (shared.intervals.size()) opts.emplace("intervals", py::cast(shared.intervals)); }
    for (int i = 0; i < n; ++i) {
      py::dict d; d["id"] = sch[i].id; if (sch[i].freq.size()) d["frequencies"] = py::cast(sch[i].freq); else sch[i].freq = shared.freq; if (sch[i].intervals.size()) d["intervals"] = py::cast(sch[i].intervals); else sch[i].intervals = shared.intervals;
      d["type"] = c.rng.coin() ? "one" : "two"; list.push_back(d);
      if (c.rng.coin(0.1)) { py::dict u; u["type"] = "unknown"; list.push_back(u); } if (c.rng.coin(0.1)) { py::dict u; u["id"] = 55; list.push_back(u); }
    }
    opts.emplace("outputs", py::cast(list));
    out = std::make_unique<fub::MultipleOutputs<Grid>>(fac, opts);
  }
  std::string all = vm::fmt("T=%.17g structure %d quantum %g max %ld: ", T, structure, w->quantum, long(o.max_cycles)); for (auto& s : sch) all += show(s) + " "; c.describe(all);
  // the caller offers the initial state once
  Solver s; s.world = w; s.counters = std::make_shared<fub::CounterRegistry>();
  bool offer = c.rng.coin(0.7);
  if (offer) { (*out)(s.grid); for (auto& sc : sch) { long k = 0; for (auto& f : fire) if (f.id == sc.id) ++k; c.check(k == 1, "initial state fires each output once", vm::fmt("%ld: ", k) + show(sc)); } fire.clear(); }
  bool stuck = false; 
  int legs = c.rng.choose({1, 1, 1, 2, 3}); double Tend = T; std::vector<std::pair<double, std::ptrdiff_t>> ends; const auto limit = o.max_cycles;
  try { for (int l = 1; l <= legs; ++l) { o.final_time = Duration(Tend * l / legs); o.max_cycles = limit; auto c0 = s.grid.cycles; fub::RunSimulation(s, o, std::chrono::steady_clock::now(), *out); if (s.grid.cycles > c0) ends.push_back({s.grid.t, s.grid.cycles}); } } catch (Stuck&) { stuck = true; }
  c.check(!stuck, "terminates", all); if (stuck) return;
  // visited states
  std::vector<std::pair<double, std::ptrdiff_t>> st; long rejected = 0; for (auto& e : w->log) { if (e.kind == k_ok) st.push_back({e.t, e.cycle}); if (e.kind == k_fail) ++rejected; }
  std::map<std::pair<double, std::ptrdiff_t>, std::map<int, int>> count; for (auto& f : fire) count[{f.t, f.cycle}][f.id]++;
  std::set<std::pair<double, std::ptrdiff_t>> known(st.begin(), st.end());
  for (auto& [k, v] : count) if (!known.count(k)) c.check(false, "output of a state that is not an accepted step", vm::fmt("t=%.17g c=%ld: ", k.first, long(k.second)) + all);
  long nfire = 0; std::string trace;
  for (auto& p : st) { bool end = std::find(ends.begin(), ends.end(), p) != ends.end();
    std::string mask;
    for (auto& sc : sch) {
      int d = due(sc, p.first, p.second); int k = count.count(p) && count[p].count(sc.id) ? count[p][sc.id] : 0; nfire += k; mask += char('0' + k);
      auto msg = [&] { return vm::fmt("t=%.17g cycle %ld fired %d due %d: ", p.first, long(p.second), k, d) + show(sc) + " in " + all; };
      if (d == 1) c.checkf(k == 1, k == 0 ? "missed" : "fired twice", msg);
      else if (d == 0) { if (end && structure == 0) c.checkf(k <= 1, "fired twice", msg); else c.checkf(k == 0, "fired without being due", msg); }
      else c.checkf(k <= 1, "fired twice", msg);
    }
    if (mask.find('1') != std::string::npos || trace.size() < 4) trace += mask + ",";
  }
  // each multiple of an interval inside the run is reached and fires once
  double tend = s.grid.t;
  for (auto& sc : sch) for (double I : sc.intervals) if (I > 0) for (long k = 1; k * I < tend - 3 * eps; ++k) {
    long near_states = 0, near_fire = 0; for (auto& p : st) if (std::abs(p.first - k * I) < 3 * eps + 4e-16 * p.first * 4) { ++near_states; if (count.count(p)) near_fire += count[p].count(sc.id) ? count[p][sc.id] : 0; }
    auto msg = [&] { return vm::fmt("multiple %ld of %.17g: %ld states %ld firings: ", k, I, near_states, near_fire) + all; };
    c.checkf(near_states >= 1, "multiple not reached", msg); bool fr = false; for (auto f : sc.freq) if (f > 0) fr = true;
    if (!fr) c.checkf(near_fire == 1, near_fire ? "multiple fires twice" : "multiple does not fire", msg);
    c.event("multiples judged");
  }
  c.event("firings", nfire); c.event("accepted", long(st.size())); c.event("rejected", rejected);
  c.sig(trace.substr(0, 200));
}

// the schedule classes alone: next output time and due test
ORACLE("output.schedule", 4000, 80000) {
  std::vector<Firing> fire; g_fire = &fire; double T = c.rng.logu(0.1, 20);
  int n = c.rng.range(1, 3); std::vector<Schedule> sch; auto m = std::make_unique<fub::MultipleOutputs<Grid>>(); std::vector<std::unique_ptr<fub::BasicOutput<Grid>>> single;
  for (int i = 0; i < n; ++i) { sch.push_back(random_schedule(c, T, i)); m->AddOutput(make(c, sch[i])); single.push_back(make(c, sch[i])); }
  for (int q = 0; q < 30; ++q) {
    double t = c.rng.uniform(0, T); Grid g; g.cycles = c.rng.range(0, 60); 
    const Schedule& sp = sch[c.rng.range(0, n - 1)];
    if (c.rng.coin(0.6) && sp.intervals.size()) { double I = std::abs(c.rng.pick(sp.intervals)); if (I > 0) { t = c.rng.range(0, int(T / I) + 1) * I; if (c.rng.coin()) t += c.rng.choose({1.0, -1.0}) * c.rng.choose({0.0, 1e-16, 1e-12, 1e-11, 1e-9, 1e-3}); if (t < 0) t = 0; } }
    if (c.rng.coin(0.05)) t = 0;
    g.t = t; double next_min = std::numeric_limits<double>::max(); bool any = false, gray = false; size_t before = fire.size(); (*m)(g); 
    for (int i = 0; i < n; ++i) {
      auto msg = [&] { return vm::fmt("t=%.17g cycle %ld: ", t, long(g.cycles)) + show(sch[i]); };
      int d = due(sch[i], t, g.cycles); bool r = single[i]->ShallOutputNow(g); if (d >= 0) c.checkf(r == (d == 1), r ? "due although nothing scheduled" : "not due although scheduled", msg); else gray = true;
      any = any || d == 1; long k = 0; for (size_t j = before; j < fire.size(); ++j) if (fire[j].id == i) ++k; if (d >= 0) c.checkf(k == (d == 1), "group fires member", msg);
      double nx = single[i]->NextOutputTime(Duration(t)).count(); next_min = std::min(next_min, nx);
      // reference: the next multiple that is not the current time
      double want = std::numeric_limits<double>::max(), gap = 1e300; bool amb = false; for (double I : sch[i].intervals) if (I > 0) { double k = std::floor(t / I + 0.5); double cand = k * I; if (cand <= t + 1.5 * eps) cand = (k + 1) * I; else if (cand <= t + 4 * eps) amb = true; want = std::min(want, cand); gap = std::min(gap, I); }
      if (amb) continue;
      if (want > 1e300) c.checkf(nx > 1e300, "no interval but a next output time", msg);
      else { c.checkf(std::abs(nx - want) <= 3 * eps + 1e-14 * want, "next output time", [&] { return vm::fmt("got %.17g want %.17g (off by %.3g) ", nx, want, nx - want) + msg(); }); c.checkf(nx > t, "next output time in the future", msg); }
    }
    double mn = m->NextOutputTime(Duration(t)).count(); c.check(mn == next_min || std::abs(mn - next_min) <= 1e-15 * next_min, "group next output time is the earliest", vm::fmt("%.17g %.17g", mn, next_min)); 
    if (!gray) c.check(m->ShallOutputNow(g) == any, "group due iff a member is");
    c.sig(vm::fmt("%d %d %d", n, int(any), int(t * 50 / T)));
  }
  { fub::MultipleOutputs<Grid> empty; Grid g; c.check(!empty.ShallOutputNow(g) && empty.NextOutputTime(Duration(0.3)).count() == std::numeric_limits<double>::max(), "empty group"); empty(g); }
}

// counters are reported without disturbing them
struct CounterGrid { struct H { std::shared_ptr<fub::CounterRegistry> r; auto& GetCounterRegistry() const { return r; } } h; double t = 0; const H& GetPatchHierarchy() const { return h; } Duration GetTimePoint() const { return Duration(t); } std::ptrdiff_t GetCycles() const { return 3; } };
ORACLE("output.counter", 300, 3000) {
  CounterGrid g; g.h.r = std::make_shared<fub::CounterRegistry>(); g.t = c.rng.u01() * 3 + 0.05; int n = c.rng.range(0, 5); std::vector<std::string> names; std::vector<int> calls;
  for (int i = 0; i < n; ++i) { names.push_back(vm::fmt("Counter_%c_%d", 'a' + c.rng.range(0, 20), i)); calls.push_back(c.rng.range(1, 9)); for (int k = 0; k < calls[i]; ++k) g.h.r->get(names[i])->add(c.rng.range(1, 100000000)); }
  fub::CounterOutput<CounterGrid> o(std::chrono::steady_clock::now() - std::chrono::seconds(2), {1}, {});
  c.check(o.ShallOutputNow(g), "due"); capture()->lines.clear(); capture()->keep = true; o(g); capture()->keep = false;
  c.check(long(capture()->lines.size()) == (n > 0 ? 1 : 0), "one record", vm::fmt("%ld", long(capture()->lines.size())));
  if (n > 0 && capture()->lines.size()) { const std::string& l = capture()->lines[0]; for (int i = 0; i < n; ++i) { auto p = l.find(names[i]); if (c.check(p != std::string::npos, "counter listed", names[i] + " in " + l)) { long k = std::atol(l.c_str() + p + names[i].size()); c.check(k == calls[i], "call count", vm::fmt("%ld != %d", k, calls[i])); c.check(l.find(names[i], p + 1) == std::string::npos, "listed once", names[i]); } } }
  c.sig(vm::fmt("%d", n));
}
