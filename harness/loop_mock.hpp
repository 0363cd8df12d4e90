// A scripted solver and grid for fub::RunSimulation, and a log sink that
// counts the time step lines.
#pragma once
#include "vm.hpp"
#include "fub/RunSimulation.hpp"
#include <boost/log/core.hpp>
#include <boost/log/sinks/basic_sink_backend.hpp>
#include <boost/log/sinks/sync_frontend.hpp>
#include <boost/log/expressions.hpp>
#include <mpi.h>
#include <memory>

namespace loopmock {
using fub::Duration;

struct Capture : boost::log::sinks::basic_sink_backend<boost::log::sinks::synchronized_feeding> {
  std::vector<std::string> lines; bool keep = false;
  void consume(const boost::log::record_view& r) { if (!keep) return; auto m = r[boost::log::expressions::smessage]; if (m) lines.push_back(m.get()); }
};
inline boost::shared_ptr<Capture>& capture() { static auto c = boost::make_shared<Capture>(); return c; }
inline void start(int& a, char**& v) {
  MPI_Init(&a, &v);
  using Sink = boost::log::sinks::synchronous_sink<Capture>;
  boost::log::core::get()->add_sink(boost::make_shared<Sink>(capture()));
}
struct Starter { Starter() { vm::on_start = [](int& a, char**& v) { start(a, v); }; } };

struct Grid {
  double t = 0; std::ptrdiff_t cycles = 0;
  // solution, only meaningful to the oracle
  double x = 1.0; double y = 0.0; long garbage = 0;
  Duration GetTimePoint() const { return Duration(t); }
  std::ptrdiff_t GetCycles() const { return cycles; }
};

enum Kind { k_pre, k_stable, k_try, k_fail, k_ok, k_post, k_next, k_shall, k_out };
struct Event { Kind kind; double t; std::ptrdiff_t cycle; double a = 0, b = 0; };

// the fixed behaviour of the simulated physics, shared by all copies
struct World {
  std::vector<Event> log;
  std::uint64_t seed = 1; double dt_lo = 0.01, dt_hi = 0.1; double p_fail = 0.0; double f_lo = 0.3;
  double global_scale = 1.0; double cfl = 0.8; double quantum = 0; // fixed time steps if > 0
  long attempts_here = 0; long n_try = 0;
  int kill_after = 100000; // attempts after which the run is considered stuck
  double hash(double x, std::ptrdiff_t c, int k) const { std::uint64_t h = seed * 7919 + static_cast<std::uint64_t>(k); h = vm::hash_bytes(&c, sizeof c, h); vm::Rng r(h); return r.u01() + 0 * x; }
  // stable time step at a state
  double stable(const Grid& g) const { return quantum > 0 ? quantum : dt_lo + (dt_hi - dt_lo) * hash(g.x, g.cycles, 0); }
};
struct Stuck {};

struct Solver {
  std::shared_ptr<World> world; std::shared_ptr<fub::CounterRegistry> counters;
  Grid grid;
  const Grid* GetGriddingAlgorithm() const { return &grid; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const { return counters; }
  Duration GetTimePoint() const { return Duration(grid.t); }
  std::ptrdiff_t GetCycles() const { return grid.cycles; }
  void PreAdvanceHierarchy() { world->log.push_back({k_pre, grid.t, grid.cycles, grid.x, double(grid.garbage)}); }
  Duration ComputeStableDt() { double s = world->stable(grid); world->log.push_back({k_stable, grid.t, grid.cycles, s}); return Duration(s); }
  boost::outcome_v2::result<void, fub::TimeStepTooLarge> AdvanceHierarchy(Duration dt) {
    World& w = *world; if (++w.n_try > w.kill_after) throw Stuck{};
    w.log.push_back({k_try, grid.t, grid.cycles, dt.count(), grid.x});
    // bound of the true dynamics at this state: the more failures the smaller
    double bound = 1e300; int fails = 0;
    // number of failures planned for this state is a function of the state
    double u = w.hash(grid.x, grid.cycles, 1); int planned = u < w.p_fail ? 1 + int(w.hash(grid.x, grid.cycles, 2) * 3) : 0;
    double b = w.stable(grid) * w.cfl;
    for (int k = 0; k < planned; ++k) { b *= w.f_lo + (0.99 - w.f_lo) * w.hash(grid.x, grid.cycles, 3 + k); if (dt.count() > b * 1.0000001 && bound > 1e299) { bound = b; fails = k + 1; } }
    if (fails) {
      grid.x = -777.0 - fails; grid.y = 1e9; grid.garbage += 1; grid.t += 0.37 * dt.count(); if (fails % 2) grid.cycles += 1;
      w.log.push_back({k_fail, grid.t, grid.cycles, bound});
      return fub::TimeStepTooLarge{Duration(bound), fails % 3};
    }
    grid.x += dt.count() * (1.0 - grid.x * 0.3) ; grid.y += dt.count() * dt.count(); grid.t += dt.count(); grid.cycles += 1;
    w.log.push_back({k_ok, grid.t, grid.cycles, dt.count(), grid.x});
    return boost::outcome_v2::success();
  }
  void PostAdvanceHierarchy(Duration dt) { world->log.push_back({k_post, grid.t, grid.cycles, dt.count()}); }
};
} // namespace loopmock
