// Runtime-monitoring core shared by every check executable.
//
// An executable registers oracles; an oracle is a function that is run for
// case indices 0..N-1.  Every random choice of a case derives from
// (seed, oracle name, case index) only, so "--replay <oracle>:<index>"
// reproduces exactly one case.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace vm {

inline std::uint64_t splitmix(std::uint64_t& x) {
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed) { next(); next(); }
  std::uint64_t next() { return splitmix(s); }
  double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * u01(); }
  double logu(double a, double b) { return std::exp(uniform(std::log(a), std::log(b))); }
  int range(int a, int b) { return a + static_cast<int>(next() % static_cast<std::uint64_t>(b - a + 1)); } // inclusive
  bool coin(double p = 0.5) { return u01() < p; }
  double sign() { return coin() ? 1.0 : -1.0; }
  double normal() { double a = u01() + 1e-300, b = u01(); return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  template <typename C> auto& pick(C& c) { return c[next() % c.size()]; }
  template <typename C> const auto& pick(const C& c) { return c[next() % c.size()]; }
  template <typename T> T choose(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
};

struct Violation { std::string oracle; long index; std::string key; std::string msg; };

// thrown by Case::require to leave the current case
struct Abandon {};

struct Case {
  std::string oracle;
  long index = 0;
  Rng rng;
  bool thorough = false;
  bool verbose = false;
  long evaluations = 0;
  std::vector<std::uint64_t> sigs;
  std::map<std::string, long> counters;
  std::vector<Violation> violations;
  std::string description;

  Case(std::string o, long i, std::uint64_t seed) : oracle(std::move(o)), index(i), rng(seed) {}

  // number of oracle evaluations performed / counters of observed events
  void eval(long n = 1) { evaluations += n; }
  void event(const std::string& name, long n = 1) { counters[name] += n; }
  // signature of a distinct nontrivial observed behaviour
  template <typename T> void sig(const T& t) {
    std::ostringstream o; o << oracle << '|' << t; auto s = o.str();
    sigs.push_back(hash_bytes(s.data(), s.size()));
  }
  void describe(const std::string& s) { description = s; }
  void fail(const std::string& key, const std::string& msg) {
    if (violations.size() < 5) violations.push_back({oracle, index, oracle + "/" + key, msg});
  }
  bool check(bool ok, const std::string& key, const std::string& msg = "") {
    ++evaluations;
    if (!ok) fail(key, msg);
    return ok;
  }
  template <typename F> bool checkf(bool ok, const char* key, F&& f) {
    ++evaluations;
    if (!ok) fail(key, f());
    return ok;
  }
  void require(bool ok, const std::string& key, const std::string& msg = "") {
    if (!check(ok, key, msg)) throw Abandon{};
  }
  // |a-b| <= rtol*scale, NaN never passes
  bool close(double a, double b, double tol, const char* key, const std::string& what = "") {
    ++evaluations;
    if (std::abs(a - b) <= tol) return true;
    char buf[256];
    std::snprintf(buf, sizeof buf, " got %.17g want %.17g diff %.3g tol %.3g", a, b, a - b, tol);
    fail(key, what + buf);
    return false;
  }
  bool rel(double a, double b, double rtol, const char* key, const std::string& what = "") {
    return close(a, b, rtol * std::max(std::abs(a), std::abs(b)), key, what);
  }
};

using OracleFn = std::function<void(Case&)>;
struct Oracle { std::string name; long quick; long thorough; OracleFn fn; };

std::vector<Oracle>& registry();
struct Register {
  Register(const char* name, long quick, long thorough, OracleFn fn) { registry().push_back({name, quick, thorough, std::move(fn)}); }
};
#define VM_CAT2(a, b) a##b
#define VM_CAT(a, b) VM_CAT2(a, b)
#define ORACLE(name, quick, thorough)                                          \
  static void VM_CAT(oracle_fn_, __LINE__)(::vm::Case&);                       \
  static ::vm::Register VM_CAT(oracle_reg_, __LINE__)(                         \
      name, quick, thorough, VM_CAT(oracle_fn_, __LINE__));                    \
  static void VM_CAT(oracle_fn_, __LINE__)(::vm::Case & c)

template <typename... A> std::string fmt(const char* f, A... a) {
  char buf[1024]; std::snprintf(buf, sizeof buf, f, a...); return buf;
}
template <typename... A> std::string str(const A&... a) {
  std::ostringstream o; o.precision(17); (o << ... << a); return o.str();
}
// hook run before the oracles / after (e.g. MPI_Init)
extern std::function<void(int&, char**&)> on_start;
extern std::function<void()> on_finish;
// false on ranks that must not write results
extern bool write_results;
} // namespace vm
