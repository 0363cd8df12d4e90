#include "vm.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <algorithm>
#include <cxxabi.h>

namespace vm {
std::vector<Oracle>& registry() { static std::vector<Oracle> r; return r; }
std::function<void(int&, char**&)> on_start;
std::function<void()> on_finish;
bool write_results = true;
}
using namespace vm;

static std::string esc(const std::string& s) {
  std::string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch < 32 || ch > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); r += b; } else r += (char)ch; } return r;
}
static char* g_progress = nullptr; // shared with the driver through a file
static void set_progress(const std::string& s) { if (g_progress) std::snprintf(g_progress, 256, "%s", s.c_str()); }

static void on_cpu_limit(int) {
  const char m[] = "VM-CPU-LIMIT\n"; (void)!write(2, m, sizeof m - 1); _exit(97);
}

int main(int argc, char** argv) {
  std::uint64_t seed = 1; bool thorough = false; int shard = 0, nshard = 1; std::string out, replay, progress, only; 
  std::string skip_to; double scale = 1.0; int cpu_limit = 40;
  if (on_start) on_start(argc, argv);
  std::set<std::string> skip; // oracle:index to skip (crashed before)
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--shard") { std::string v = val(); std::sscanf(v.c_str(), "%d/%d", &shard, &nshard); }
    else if (a == "--out") out = val();
    else if (a == "--progress") progress = val();
    else if (a == "--replay") replay = val();
    else if (a == "--only") only = val();
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--skip") skip.insert(val());
    else if (a == "--resume") skip_to = val();
    else if (a == "--cpu-limit") cpu_limit = std::stoi(val());
    else if (a == "--list") { for (auto& o : registry()) std::printf("%s %ld %ld\n", o.name.c_str(), o.quick, o.thorough); return 0; }
    else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 256) != 0) return 3;
    g_progress = static_cast<char*>(mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  std::signal(SIGPROF, on_cpu_limit);
  std::sort(registry().begin(), registry().end(), [](auto& a, auto& b) { return a.name < b.name; });
  std::string r_or; long r_ix = -1;
  if (!replay.empty()) { auto p = replay.rfind(':'); r_or = replay.substr(0, p); r_ix = std::stol(replay.substr(p + 1)); }
  std::string s_or; long s_ix = -1; bool skipping = false;
  if (!skip_to.empty()) { auto p = skip_to.rfind(':'); s_or = skip_to.substr(0, p); s_ix = std::stol(skip_to.substr(p + 1)); skipping = true; }

  struct Agg { long cases = 0, evals = 0; std::unordered_set<std::uint64_t> sigs; std::map<std::string, long> counters; std::vector<std::string> samples; double secs = 0; };
  std::map<std::string, Agg> agg; std::vector<Violation> viol; std::map<std::string, int> per_key;
  for (auto& o : registry()) {
    if (!r_or.empty() && o.name != r_or) continue;
    if (!only.empty() && o.name.find(only) == std::string::npos) continue;
    long n = std::max(1L, static_cast<long>((thorough ? o.thorough : o.quick) * scale));
    if ((thorough ? o.thorough : o.quick) == 0) n = 0;
    std::uint64_t name_hash = hash_bytes(o.name.data(), o.name.size());
    Agg& ag = agg[o.name];
    timeval t0; gettimeofday(&t0, nullptr);
    for (long i = 0; i < n || r_ix >= 0; ++i) {
      if (r_ix >= 0) { i = r_ix; }
      else if ((i + static_cast<long>(name_hash % 97)) % nshard != shard) continue;
      if (skipping) { if (o.name == s_or && i == s_ix) skipping = false; continue; }
      std::string id = o.name + ":" + std::to_string(i);
      if (skip.count(id)) continue;
      set_progress(id);
      itimerval tv{}; tv.it_value.tv_sec = cpu_limit; setitimer(ITIMER_PROF, &tv, nullptr);
      std::uint64_t mix = seed * 0x9e3779b97f4a7c15ULL ^ name_hash; splitmix(mix); mix += 0x51ed270b * static_cast<std::uint64_t>(i);
      Case c(o.name, i, mix); c.thorough = thorough; c.verbose = r_ix >= 0;
      try { o.fn(c); }
      catch (const Abandon&) {}
      catch (const std::exception& e) { c.fail("exception", std::string("unexpected exception: ") + e.what()); }
      catch (abi::__forced_unwind&) { throw; }
      catch (...) { c.fail("exception", "unexpected exception of unknown type"); }
      itimerval z{}; setitimer(ITIMER_PROF, &z, nullptr);
      ag.cases++; ag.evals += c.evaluations;
      for (auto s : c.sigs) if (ag.sigs.size() < 400000) ag.sigs.insert(s);
      for (auto& kv : c.counters) ag.counters[kv.first] += kv.second;
      if (!c.description.empty() && ag.samples.size() < 2) ag.samples.push_back(id + ": " + c.description);
      for (auto& v : c.violations) {
        if (per_key[v.key]++ < 3) { viol.push_back(v); std::fprintf(stderr, "VIOL %s [%s] %s\n", id.c_str(), v.key.c_str(), v.msg.c_str()); }
      }
      if (c.verbose) std::fprintf(stderr, "replayed %s: evals=%ld violations=%zu %s\n", id.c_str(), c.evaluations, c.violations.size(), c.description.c_str());
      if (r_ix >= 0) break;
    }
    timeval t1; gettimeofday(&t1, nullptr);
    ag.secs = (t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec);
  }
  set_progress("done");
  if (on_finish) on_finish();
  if (!out.empty() && write_results) {
    FILE* f = std::fopen(out.c_str(), "w"); if (!f) return 3;
    std::fprintf(f, "{\"oracles\":{"); bool first = true;
    for (auto& kv : agg) {
      std::fprintf(f, "%s\"%s\":{\"cases\":%ld,\"evals\":%ld,\"secs\":%.3f,\"sigs\":[", first ? "" : ",", kv.first.c_str(), kv.second.cases, kv.second.evals, kv.second.secs); first = false;
      bool f2 = true; for (auto s : kv.second.sigs) { std::fprintf(f, "%s\"%llx\"", f2 ? "" : ",", (unsigned long long)s); f2 = false; }
      std::fprintf(f, "],\"counters\":{"); f2 = true;
      for (auto& k : kv.second.counters) { std::fprintf(f, "%s\"%s\":%ld", f2 ? "" : ",", esc(k.first).c_str(), k.second); f2 = false; }
      std::fprintf(f, "},\"samples\":["); f2 = true;
      for (auto& s : kv.second.samples) { std::fprintf(f, "%s\"%s\"", f2 ? "" : ",", esc(s).c_str()); f2 = false; }
      std::fprintf(f, "]}");
    }
    std::fprintf(f, "},\"violations\":["); first = true;
    for (auto& v : viol) { std::fprintf(f, "%s{\"oracle\":\"%s\",\"index\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", esc(v.oracle).c_str(), v.index, esc(v.key).c_str(), esc(v.msg).c_str()); first = false; }
    std::fprintf(f, "]}\n"); std::fclose(f);
  }
  return viol.empty() ? 0 : 1;
}
