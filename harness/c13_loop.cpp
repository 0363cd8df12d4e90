// C13: the time loop. fub::RunSimulation drives a scripted solver whose steps
// fail at chosen states; the log of every call is compared with what the
// option values, the reported bounds and the output times demand.
#include "loop_mock.hpp"
using namespace loopmock;
namespace {
Starter starter;

// output at explicitly listed times and cycles
struct ListOutput : fub::BasicOutput<Grid> {
  std::shared_ptr<World> w; std::vector<double> times; std::ptrdiff_t freq = 0; double eps = 1e-12;
  Duration NextOutputTime(Duration t) override {
    double n = std::numeric_limits<double>::max();
    for (double s : times) if (s > t.count() + 1e-9) n = std::min(n, s + eps);
    w->log.push_back({k_next, t.count(), 0, n}); return Duration(n);
  }
  bool ShallOutputNow(const Grid& g) override {
    bool r = freq > 0 && g.cycles % freq == 0;
    for (double s : times) r = r || std::abs(g.t - s) < 2e-12;
    w->log.push_back({k_shall, g.t, g.cycles, double(r)}); return r;
  }
  void operator()(const Grid& g) override { w->log.push_back({k_out, g.t, g.cycles, g.x, double(g.garbage)}); }
};
std::string dump(const World& w, size_t upto = 1000000) {
  static const char* n[] = {"pre", "stable", "try", "fail", "ok", "post", "next", "shall", "out"}; std::string s;
  size_t a = w.log.size() > 24 ? (upto < w.log.size() ? (upto > 12 ? upto - 12 : 0) : w.log.size() - 24) : 0;
  for (size_t i = a; i < w.log.size() && i < a + 24; ++i) s += vm::fmt(" %s(t=%.17g c=%ld %.10g)", n[w.log[i].kind], w.log[i].t, long(w.log[i].cycle), w.log[i].a);
  return s;
}
}

ORACLE("loop.run", 16000, 400000) {
  auto w = std::make_shared<World>(); w->seed = c.rng.next();
  fub::RunOptions o; double T = c.rng.choose({1.0, 0.5, 3.0, 0.0, 1e-3}); if (c.rng.coin(0.4)) T = c.rng.logu(1e-4, 10);
  double t0 = c.rng.coin(0.6) ? 0.0 : c.rng.uniform(0, 1.3) * T; if (c.rng.coin(0.05)) t0 = T;
  double len = std::max(T - t0, 1e-4); int nsteps = c.rng.range(2, 60);
  w->dt_hi = len / nsteps * c.rng.uniform(1, 3); w->dt_lo = w->dt_hi * c.rng.uniform(0.1, 1);
  w->p_fail = c.rng.choose({0.0, 0.1, 0.5, 1.0}); w->f_lo = c.rng.uniform(0.2, 0.9);
  w->kill_after = 20000;
  o.final_time = Duration(T); o.cfl = c.rng.choose({0.8, 1.0, 0.4, 0.9}); w->cfl = o.cfl; o.do_backup = c.rng.coin(0.85) ? 1 : 0;
  Solver s; s.world = w; s.counters = std::make_shared<fub::CounterRegistry>(); s.grid.t = t0; s.grid.cycles = c.rng.coin(0.7) ? 0 : c.rng.range(1, 40); s.grid.x = c.rng.uniform(0, 2);
  const std::ptrdiff_t c0 = s.grid.cycles; const Grid g0 = s.grid;
  o.max_cycles = c.rng.coin(0.6) ? -1 : c.rng.range(0, 50);
  if (c.rng.coin(0.1)) o.smallest_time_step_size = Duration(1e-10);
  ListOutput out; out.w = w; out.eps = 1e-12; int nt = c.rng.range(0, 6); for (int i = 0; i < nt; ++i) out.times.push_back(c.rng.coin(0.2) ? T : c.rng.uniform(0, 1.2) * T);
  if (c.rng.coin(0.3)) out.freq = c.rng.range(1, 7);
  std::sort(out.times.begin(), out.times.end());
  // keep distances resolvable
  { std::vector<double> v; for (double x : out.times) if ((v.empty() || x - v.back() > 1e-6 * len) && std::abs(x - t0) > 1e-6 * len && (std::abs(x - T) > 1e-6 * len || x == T)) v.push_back(x); out.times = v; }
  c.describe(vm::fmt("t0=%.17g T=%.17g c0=%ld max=%ld cfl=%g backup=%d fail=%g out=%d freq=%ld", t0, T, long(c0), long(o.max_cycles), o.cfl, o.do_backup, w->p_fail, int(out.times.size()), long(out.freq)));
  bool keep = c.rng.coin(0.1); capture()->lines.clear(); capture()->keep = keep;
  bool stuck = false;
  try { fub::RunSimulation(s, o, std::chrono::steady_clock::now(), out); } catch (Stuck&) { stuck = true; }
  capture()->keep = false;
  c.check(!stuck, "terminates", "loop does not come to an end:" + dump(*w));
  if (stuck) return;
  // ---- walk the log
  const double eps = o.smallest_time_step_size.count();
  double t = t0, x = g0.x; std::ptrdiff_t cyc = c0; double bound = -1; bool have_fail = false; double next = -1; bool have_pre = false; double try_dt = 0; long n_ok = 0, n_fail = 0, n_out = 0; bool aborted = false;
  double stable_here = -1; bool post_pending = false; std::string oks;
  double ref_x = g0.x, ref_y = g0.y; bool out_since = true; long rejected_chain = 0;
  for (size_t i = 0; i < w->log.size(); ++i) {
    const Event& e = w->log[i];
    auto at = [&] { return vm::fmt("event %ld:", long(i)) + dump(*w, i); };
    if (aborted) { c.checkf(e.kind == k_out || e.kind == k_shall, "after abort", at); c.checkf(e.kind != k_out, "output after abort", at); continue; }
    switch (e.kind) {
    case k_next: c.checkf(e.t == t, "next output asked for current time", at); next = e.a; break;
    case k_pre: have_pre = true; c.checkf(e.t == t && e.cycle == cyc && e.a == x && e.b == 0, "state restored before step", at); c.checkf(!post_pending, "post before next step", at); break;
    case k_stable: c.checkf(e.t == t && e.cycle == cyc, "stable dt of current state", at); stable_here = e.a; break;
    case k_try: {
      c.checkf(have_pre, "pre advance called", at); have_pre = false;
      c.checkf(e.t == t && e.cycle == cyc && e.b == x, "step starts from restored state", at);
      c.checkf(t + eps < T && (o.max_cycles < 0 || cyc < o.max_cycles), "step although finished", at);
      double lim = have_fail ? bound : stable_here;
      c.checkf(lim > 0 && e.a <= o.cfl * lim * (1 + 1e-14), "courant limit", at);
      c.checkf(e.a <= (T - t) * (1 + 1e-14), "passes final time", at);
      c.checkf(next > 0 && e.a <= (next - t) * (1 + 1e-14), "passes output time", at);
      double want = std::min({o.cfl * lim, T - t, next - t}); c.checkf(e.a >= want * (1 - 1e-12), "step smaller than the limits", at);
      c.checkf(e.a > 0, "positive step", at);
      try_dt = e.a; break; }
    case k_fail: ++n_fail; ++rejected_chain; have_fail = true; bound = e.a; stable_here = -1; next = -1; if (!o.do_backup) aborted = true; break;
    case k_ok: ++n_ok; c.checkf(e.t > t && e.cycle == cyc + 1, "time increases", at); ref_x += try_dt * (1 - ref_x * 0.3); ref_y += try_dt * try_dt; t = e.t; cyc = e.cycle; x = e.b; have_fail = false; stable_here = -1; next = -1; post_pending = true; out_since = false; rejected_chain = 0; oks += 'o'; break;
    case k_post: c.checkf(post_pending && e.a == try_dt && e.t == t, "post advance after accepted step", at); post_pending = false; break;
    case k_shall: break;
    case k_out: ++n_out; c.checkf(e.t == t && e.cycle == cyc && e.a == x && e.b == 0, "output of the current state", at); c.checkf(!out_since, "output repeated for one state", at); out_since = true; break;
    }
  }
  c.check(!post_pending, "post advance missing", dump(*w));
  // ---- end state
  if (!aborted) {
    bool finished = !(t + eps < T) || (o.max_cycles >= 0 && cyc >= o.max_cycles);
    c.check(finished, "ends early", dump(*w));
    c.check(s.grid.t == t && s.grid.cycles == cyc && s.grid.garbage == 0, "final state", dump(*w));
    c.close(s.grid.x, ref_x, 1e-12 * (1 + std::abs(ref_x)), "final solution"); c.close(s.grid.y, ref_y, 1e-12 * (1 + ref_y), "final solution");
    if (n_ok && !(o.max_cycles >= 0 && cyc >= o.max_cycles)) c.close(s.grid.t, T, eps + 4e-15 * T, "end time", dump(*w));
  } else {
    c.check(n_fail == 1, "one failure ends the run without backup", dump(*w));
  }
  bool nothing = !(t0 + eps < T) || (o.max_cycles >= 0 && c0 >= o.max_cycles);
  if (nothing) c.check(n_ok == 0 && n_fail == 0 && n_out == 0 && s.grid.t == t0, "finished run takes no step", dump(*w));
  // every output time inside the run is a state of the run (reached, not passed)
  if (!aborted) for (double a : out.times) if (a > t0 && a <= t - 1e-11) { bool hit = false; for (auto& e : w->log) if (e.kind == k_ok && std::abs(e.t - a) < 2e-12 + 1e-14 * a) hit = true; c.check(hit, "output time is a state of the run", vm::fmt("%.17g:", a) + dump(*w)); bool fired = false; for (auto& e : w->log) if (e.kind == k_out && std::abs(e.t - a) < 2e-12 + 1e-14 * a) fired = true; c.check(fired, "output offered at output time", vm::fmt("%.17g:", a) + dump(*w)); }
  if (keep) {
    long lines = 0; for (auto& l : capture()->lines) if (l.find("dt = ") != std::string::npos && l.find('[') == 0) ++lines;
    c.check(lines == n_ok, "one line per accepted step", vm::fmt("%ld lines for %ld steps", lines, n_ok));
    c.event("log lines", lines);
  }
  c.event("accepted", n_ok); c.event("rejected", n_fail); c.event("outputs", n_out); if (aborted) c.event("aborted runs");
  std::string trace; for (auto& e : w->log) if (e.kind == k_ok) trace += 'o'; else if (e.kind == k_fail) trace += 'f'; else if (e.kind == k_out) trace += 'O';
  c.sig(trace + (aborted ? "!" : ""));
}

// a run with rejected steps ends in the same state as a run whose solver
// would have been given the accepted steps only
ORACLE("loop.split", 2000, 40000) {
  auto make = [&](std::uint64_t seed, double p) { auto w = std::make_shared<World>(); w->seed = seed; w->p_fail = p; w->f_lo = 0.4; w->dt_lo = 0.01; w->dt_hi = 0.05; w->kill_after = 20000; return w; };
  std::uint64_t seed = c.rng.next(); double T = c.rng.uniform(0.2, 2.0); double p = c.rng.choose({0.0, 0.3, 1.0});
  struct NoOut : fub::BasicOutput<Grid> { Duration NextOutputTime(Duration) override { return Duration(1e300); } bool ShallOutputNow(const Grid&) override { return false; } void operator()(const Grid&) override {} } none;
  fub::RunOptions o; o.cfl = 0.8;
  auto w1 = make(seed, p), w2 = make(seed, p); w1->cfl = w2->cfl = o.cfl;
  Solver a; a.world = w1; a.counters = std::make_shared<fub::CounterRegistry>(); Solver b = a; b.world = w2;
  o.final_time = Duration(T); fub::RunSimulation(a, o, std::chrono::steady_clock::now(), none);
  // the same run interrupted by cycle counts and resumed
  int k = c.rng.range(1, 4); std::ptrdiff_t stop = 0; 
  for (int i = 0; i < k; ++i) { stop += c.rng.range(1, 15); o.max_cycles = stop; fub::RunSimulation(b, o, std::chrono::steady_clock::now(), none); c.check(b.grid.cycles <= stop, "cycle limit", vm::fmt("%ld > %ld", long(b.grid.cycles), long(stop))); if (!(b.grid.t + 1e-12 < T)) break; c.check(b.grid.cycles == stop, "cycle limit reached", vm::fmt("%ld != %ld", long(b.grid.cycles), long(stop))); }
  o.max_cycles = -1; fub::RunSimulation(b, o, std::chrono::steady_clock::now(), none);
  c.check(a.grid.t == b.grid.t && a.grid.cycles == b.grid.cycles, "resumed run", vm::fmt("t %.17g %.17g cycles %ld %ld", a.grid.t, b.grid.t, long(a.grid.cycles), long(b.grid.cycles)));
  c.close(a.grid.x, b.grid.x, 1e-12, "resumed run solution");
  c.event("accepted", a.grid.cycles); c.sig(vm::fmt("%ld/%ld/%d", long(a.grid.cycles), long(stop), int(p * 10)));
}

// the progress line
ORACLE("loop.line", 400, 4000) {
  long cyc = c.rng.range(0, 2000000); double T = c.rng.logu(1e-6, 1e3), t = T * c.rng.u01(), dt = c.rng.logu(1e-12, 10); long secs = c.rng.range(0, 400000); double frac = c.rng.u01();
  auto wall = std::chrono::nanoseconds(secs * 1000000000LL + static_cast<long long>(frac * 1e9)); auto diff = std::chrono::nanoseconds(static_cast<long long>(c.rng.logu(1e3, 1e11)));
  std::string l = fub::FormatTimeStepLine(cyc, std::chrono::duration<double>(t), std::chrono::duration<double>(dt), std::chrono::duration<double>(T), wall, diff);
  int pct; long cc; double d, sec, wd; int h, m;
  int n = std::sscanf(l.c_str(), "[%d%%] %ld: dt = %les wall-time: %dh:%dm:%lfs (+%les)", &pct, &cc, &d, &h, &m, &sec, &wd);
  if (c.check(n == 7, "format", l)) {
    c.check(cc == cyc, "cycle", l); c.rel(d, dt, 1e-6, "dt", l); c.check(std::abs(pct - t / T * 100) <= 1.0000001, "percent", l);
    c.close(h * 3600.0 + m * 60.0 + sec, std::chrono::duration<double>(wall).count(), 2e-6 , "wall time", l); c.check(m < 60 && sec < 60.000001, "minutes", l); c.rel(wd, std::chrono::duration<double>(diff).count(), 1e-6, "wall difference", l);
  }
  c.sig(l.substr(0, 14));
}
