// C22: timers and counters against a reference computed from the recorded
// samples; runs on several MPI processes at once.
#include "vm.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include <algorithm>
#include <chrono>
#include <list>
#include <memory>
#include <thread>
using namespace fub;
namespace {
int g_rank = 0, g_size = 1;
struct Setup { Setup() {
  vm::on_start = [](int& a, char**& v) { MPI_Init(&a, &v); MPI_Comm_rank(MPI_COMM_WORLD, &g_rank); MPI_Comm_size(MPI_COMM_WORLD, &g_size); vm::write_results = g_rank == 0; };
  vm::on_finish = [] { MPI_Finalize(); };
} } setup;
// the verdict of a check on any process is reported by the root
bool all(vm::Case& c, bool ok, const char* key, const std::string& m) {
  int a = ok, b = 0; MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); return c.check(b, key, m);
}
long long sample(vm::Rng& r, int mode) {
  switch (mode) { case 0: return r.range(0, 10); case 1: return r.range(-1000000, 1000000); case 2: return 4000000000000LL + r.range(0, 1000); case 3: return (long long)(r.next() >> 2) / 100000; default: return r.coin(0.1) ? 5000000000LL : 3; }
}
struct Ref { long double mean = 0, var = 0; long long min = 0, max = 0, sum = 0; };
Ref reference(const std::vector<long long>& v) {
  Ref r; if (v.empty()) return r; r.min = *std::min_element(v.begin(), v.end()); r.max = *std::max_element(v.begin(), v.end());
  for (auto x : v) r.sum += x; r.mean = (long double)r.sum / v.size(); for (auto x : v) r.var += (x - r.mean) * (x - r.mean); r.var /= v.size(); return r;
}
void compare(vm::Case& c, const Counter& k, const std::vector<long long>& v, const std::string& id) {
  Ref r = reference(v); double scale = std::max<double>(std::abs((double)r.max), std::abs((double)r.min));
  double vtol = 1e-9 * (double)r.var + 1e-13 * scale * scale * 1e-2 + 1e-300;
  all(c, k.get_count() == v.size() && k.get_value() == r.sum && k.get_min() == r.min && k.get_max() == r.max, "count_sum_min_max", id);
  all(c, std::abs(k.get_mean() - (double)r.mean) <= 1e-14 * scale + 1e-300, "mean", id);
  all(c, std::abs(k.get_variance() - (double)r.var) <= vtol, "variance", id);
  all(c, std::abs(k.get_stddev() - std::sqrt(k.get_variance())) <= 1e-14 * scale + 1e-300, "stddev", id);
}
}
ORACLE("counter.statistics", 1500, 30000) {
  // sample sequences differ per process
  vm::Rng r(c.rng.next() + 7919 * g_rank); int mode = c.rng.range(0, 4), ops = c.rng.range(0, 60);
  Counter k("name"); std::vector<long long> v; std::string id = vm::fmt("mode %d ops %d", mode, ops);
  for (int i = 0; i < ops; ++i) { if (r.coin(0.03)) { k.reset(); v.clear(); } else { long long x = sample(r, mode); k.add(x); v.push_back(x); } }
  compare(c, k, v, id); all(c, k.get_name() == "name", "name", id);
  { Counter copy = k; compare(c, copy, v, id); copy.add(1); compare(c, k, v, id); }
  // gather: smallest, largest and average of the processes' values
  Ref me = reference(v); std::vector<long long> mins(g_size), maxs(g_size); std::vector<double> means(g_size); double m = (double)me.mean; std::vector<unsigned long> cnt(g_size); unsigned long n = v.size();
  MPI_Allgather(&me.min, 1, MPI_LONG_LONG, mins.data(), 1, MPI_LONG_LONG, MPI_COMM_WORLD); MPI_Allgather(&me.max, 1, MPI_LONG_LONG, maxs.data(), 1, MPI_LONG_LONG, MPI_COMM_WORLD);
  MPI_Allgather(&m, 1, MPI_DOUBLE, means.data(), 1, MPI_DOUBLE, MPI_COMM_WORLD); MPI_Allgather(&n, 1, MPI_UNSIGNED_LONG, cnt.data(), 1, MPI_UNSIGNED_LONG, MPI_COMM_WORLD);
  int root = c.rng.range(0, g_size - 1); auto res = k.gather_statistics(MPI_COMM_WORLD, root);
  all(c, res.has_value() == (g_rank == root), "gather_root_only", id);
  bool ok = true, okv = true;
  if (res) {
    double mean = 0, var = 0, sc = 0; for (double x : means) { mean += x; sc = std::max(sc, std::abs(x)); } mean /= g_size; for (double x : means) var += (x - mean) * (x - mean); var /= g_size;
    ok = res->name == "name" && res->count == cnt[root] && res->min == *std::min_element(mins.begin(), mins.end()) && res->max == *std::max_element(maxs.begin(), maxs.end()) && std::abs(res->mean - mean) <= 1e-13 * sc + 1e-300;
    okv = std::abs(res->variance - var) <= 1e-9 * var + 1e-13 * sc * sc && std::abs(res->stddev - std::sqrt(res->variance)) <= 1e-9 * res->stddev;
  }
  all(c, ok, "gather", id); all(c, okv, "gather_spread", id);
  c.event("samples", v.size()); c.event("gathers"); c.describe(id + vm::fmt(" procs %d", g_size)); c.sig(vm::fmt("%d %d %zu %lld", mode, ops, v.size(), me.sum));
}
ORACLE("counter.timers", 400, 8000) {
  using clock = std::chrono::steady_clock; auto ns = [](clock::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); };
  // model: every running measurement is a token (counter, earliest start, latest start) owned by at most one slot
  CounterRegistry reg; struct Tok { int counter; long long s0, s1; }; struct Slot { std::unique_ptr<Timer> t; bool has = false; Tok tok{}; };
  struct Done { long long lo, hi; }; std::map<int, std::vector<Done>> done; std::vector<Slot> slots(6); std::string trace; int nc = c.rng.range(1, 3);
  auto name = [&](int k) { return "timer" + std::to_string(k); };
  auto finish = [&](Slot& s, long long e0, long long e1) { if (s.has) { done[s.tok.counter].push_back({e0 - s.tok.s1, e1 - s.tok.s0}); s.has = false; } };
  for (int i = 0, n = c.rng.range(1, 40); i < n; ++i) {
    int a = c.rng.range(0, 5), b = c.rng.range(0, 5), k = c.rng.range(0, nc - 1), op = c.rng.range(0, 6);
    if (c.rng.coin(0.1)) std::this_thread::sleep_for(std::chrono::microseconds(c.rng.range(1, 40)));
    long long t0 = ns(clock::now());
    switch (op) {
    case 0: case 1: // start in a slot
      if (!slots[a].t) { slots[a].t = std::make_unique<Timer>(op ? reg.get_timer(name(k)) : Timer(*reg.get(name(k)))); long long t1 = ns(clock::now()); slots[a].has = true; slots[a].tok = {k, t0, t1}; trace += 's'; } break;
    case 2: // end of life
      if (slots[a].t) { slots[a].t.reset(); finish(slots[a], t0, ns(clock::now())); trace += 'd'; } break;
    case 3: // move construct
      if (slots[a].t && !slots[b].t) { slots[b].t = std::make_unique<Timer>(std::move(*slots[a].t)); slots[b].has = slots[a].has; slots[b].tok = slots[a].tok; slots[a].has = false; trace += 'm'; } break;
    case 4: // move assign, the target may be running
      if (slots[a].t && slots[b].t && a != b) { *slots[b].t = std::move(*slots[a].t); long long t1 = ns(clock::now()); finish(slots[b], t0, t1); slots[b].has = slots[a].has; slots[b].tok = slots[a].tok; slots[a].has = false; trace += slots[b].has ? 'a' : 'e'; } break;
    case 5: // default constructed timers measure nothing
      if (!slots[a].t) { slots[a].t = std::make_unique<Timer>(); slots[a].has = false; trace += '0'; } break;
    default: if (slots[a].t) { Timer& self = *slots[a].t; Timer& alias = self; self = std::move(alias); trace += 'S'; } break; // self move
    }
    for (auto& s : slots) if (s.t && s.has) all(c, s.t->get_name() == name(s.tok.counter), "timer_name", trace); else all(c, true, "timer_name", "");
  }
  for (auto& s : slots) { long long t0 = ns(clock::now()); s.t.reset(); finish(s, t0, ns(clock::now())); }
  for (int k = 0; k < nc; ++k) {
    Counter* q = reg.get(name(k)); all(c, q == reg.get(name(k)) && q->get_name() == name(k), "same_counter", trace);
    auto& d = done[k]; all(c, q->get_count() == d.size(), "one_sample_each", trace + vm::fmt(" counter %d has %lu samples, %zu measurements ended", k, q->get_count(), d.size()));
    long long lo = 0, hi = 0, mxlo = 0, mnhi = 0; bool first = true; for (auto& x : d) { lo += std::max(0LL, x.lo); hi += x.hi; mxlo = first ? x.lo : std::max(mxlo, x.lo); mnhi = first ? x.hi : std::min(mnhi, x.hi); first = false; }
    all(c, q->get_value() >= lo && q->get_value() <= hi, "duration_bracket", trace + vm::fmt(" sum %lld in [%lld,%lld]", q->get_value(), lo, hi));
    if (!d.empty()) all(c, q->get_max() >= mxlo && q->get_min() <= mnhi && q->get_min() >= 0, "duration_extrema", trace); else all(c, true, "duration_extrema", trace);
    c.event("measurements", d.size());
  }
  c.describe(trace); c.sig(trace);
}
ORACLE("counter.registry", 300, 4000) {
  CounterRegistry reg; int n = c.rng.range(0, 12); std::map<std::string, std::vector<long long>> ref; std::vector<std::string> order; std::map<std::string, Counter*> ptr;
  for (int i = 0; i < n * 3; ++i) { std::string nm = "c" + std::to_string(c.rng.range(0, n)) + (c.rng.coin(0.2) ? "::a longer counter name" : ""); Counter* k = reg.get(nm); if (ptr.count(nm)) all(c, ptr[nm] == k, "stable_pointer", nm); else all(c, true, "stable_pointer", nm); ptr[nm] = k; long long x = c.rng.range(0, 5000000) * 1000LL; k->add(x); ref[nm].push_back(x); }
  auto v = reg.gather_statistics(); auto m = reg.gather_statistics_map();
  bool ok = true, okt = true; std::string id = vm::fmt("n=%zu", ref.size());
  if (g_rank == 0) {
    ok = v.size() == ref.size() && m.size() == ref.size(); std::set<std::string> seen;
    for (auto& r : v) { seen.insert(r.name); auto it = ref.find(r.name); if (it == ref.end()) { ok = false; continue; } Ref q = reference(it->second); ok = ok && r.count == it->second.size() && r.min == q.min && r.max == q.max && std::abs(r.mean - (double)q.mean) <= 1e-12 * (double)q.max && m.count(r.name) && m.at(r.name).count == r.count && m.at(r.name).max == r.max && m.at(r.name).mean == r.mean; }
    ok = ok && seen.size() == ref.size();
    // the printed table has one row for every counter with the same numbers
    std::string t = print_statistics<std::chrono::microseconds>(v, c.rng.coin() ? -1 : 123456789); std::istringstream is(t); std::string line; int rows = 0; double prev = 1e300;
    while (std::getline(is, line)) for (auto& kv : ref) { std::istringstream ls(line); std::string all_; size_t p = line.find(kv.first); if (p == std::string::npos || line.substr(0, p).find_first_not_of(' ') != std::string::npos || line[p + kv.first.size()] != ' ') continue; std::istringstream rest(line.substr(p + kv.first.size())); unsigned long cnt; long long mn, mx, av; rest >> cnt >> mn >> mx >> av; Ref q = reference(kv.second); ++rows; okt = okt && cnt == kv.second.size() && mn == q.min / 1000 && mx == q.max / 1000 && std::abs(av - (double)q.mean / 1000) <= 1.01; double tot = (double)q.sum; okt = okt && tot <= prev * (1 + 1e-9) + 1; prev = tot; }
    okt = okt && rows == (int)ref.size(); if (ref.empty()) okt = okt && t.find("does not contain any") != std::string::npos;
    if (!okt) id += "\n" + t;
  } else ok = v.empty() && m.empty();
  all(c, ok, "registry_statistics", id); all(c, okt, "printed_table", id); c.event("counters", ref.size()); c.sig(id + std::to_string(v.size() ? v[0].mean : 0)); c.describe(id);
}
