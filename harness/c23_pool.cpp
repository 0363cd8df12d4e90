// C23: pool memory. A recording upstream resource and a shadow map of live
// blocks watch random allocation histories.
#include "vm.hpp"
#include "fub/PoolAllocator.hpp"
#include <algorithm>
namespace {
struct Upstream : std::pmr::memory_resource {
  struct Rec { std::size_t bytes, align; bool live; };
  std::map<char*, Rec> blocks; std::vector<std::string> errors; long allocs = 0, frees = 0, live_bytes = 0; long fail_at = -1;
  void* do_allocate(std::size_t b, std::size_t a) override {
    if (allocs == fail_at) { ++allocs; throw std::bad_alloc(); }
    ++allocs; char* p = static_cast<char*>(std::aligned_alloc(a < 16 ? 16 : a, (b + 127) / 128 * 128 + 128)); blocks[p] = {b, a, true}; live_bytes += b; return p;
  }
  void do_deallocate(void* q, std::size_t b, std::size_t a) override {
    ++frees; auto it = blocks.find(static_cast<char*>(q));
    if (it == blocks.end()) { errors.push_back("unknown block returned"); return; }
    if (!it->second.live) { errors.push_back("block returned twice"); return; }
    if (it->second.bytes != b) errors.push_back(vm::fmt("returned with size %zu, obtained with %zu", b, it->second.bytes));
    if (it->second.align != a) errors.push_back(vm::fmt("returned with alignment %zu, obtained with %zu", a, it->second.align));
    it->second.live = false; live_bytes -= b;
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
  bool covers(char* p, std::size_t n) const {
    auto it = blocks.upper_bound(p); if (it == blocks.begin()) return false; --it;
    return it->second.live && p + n <= it->first + it->second.bytes;
  }
  ~Upstream() { for (auto& kv : blocks) std::free(kv.first); }
};
struct Block { char* p; std::size_t bytes, align; unsigned char tag; };
}
ORACLE("pool.history", 600, 20000) {
  Upstream up; long steps = c.rng.range(1, c.thorough ? 600 : 200);
  std::vector<std::size_t> sizes; int ns = c.rng.range(1, 6);
  for (int i = 0; i < ns; ++i) sizes.push_back(c.rng.choose<std::size_t>({0, 1, 2, 3, 4, 7, 8, 9, 16, 24, 64, 100, 1000, 4096}));
  std::vector<std::size_t> aligns = {1, 2, 4, 8}; if (c.rng.coin()) aligns.push_back(16); if (c.rng.coin(0.3)) { aligns.push_back(32); aligns.push_back(64); }
  bool throwing = c.rng.coin(0.2); long reused = 0, maxlive = 0; std::string pat;
  {
    fub::monotonic_bucket_resource pool(up);
    c.check(pool.is_equal(pool), "is_equal");
    { fub::monotonic_bucket_resource other(up); c.check(!pool.is_equal(other), "is_equal"); }
    std::vector<Block> live; std::map<char*, std::pair<std::size_t, std::size_t>> freed; // released and not handed out again
    for (long s = 0; s < steps; ++s) {
      bool alloc = live.empty() || c.rng.coin(0.55);
      if (alloc) {
        std::size_t b = c.rng.pick(sizes), a = c.rng.pick(aligns); long before = up.allocs;
        if (throwing && c.rng.coin(0.1)) up.fail_at = up.allocs; else up.fail_at = -1;
        char* p = nullptr;
        try { p = static_cast<char*>(pool.allocate(b, a)); } catch (const std::bad_alloc&) { c.event("upstream_failures"); pat += 'x'; continue; }
        std::string id = vm::fmt("bytes=%zu align=%zu step=%ld live=%zu", b, a, s, live.size());
        c.require(p != nullptr, "null", id);
        c.check(reinterpret_cast<std::uintptr_t>(p) % a == 0, "alignment", id);
        c.require(up.covers(p, b), "inside_upstream_block", id);
        for (auto& l : live) c.require(p + std::max<std::size_t>(b, 1) <= l.p || l.p + std::max<std::size_t>(l.bytes, 1) <= p, "overlap", id);
        bool grew = up.allocs != before;
        if (grew) for (auto& kv : freed) c.check(kv.second != std::make_pair(b, a), "reuse_without_growth", id);
        if (freed.erase(p)) ++reused;
        unsigned char tag = static_cast<unsigned char>(c.rng.range(0, 255)); std::memset(p, tag, b); live.push_back({p, b, a, tag}); pat += 'a' + (b % 26);
      } else {
        std::size_t k = c.rng.next() % live.size(); Block l = live[k]; live.erase(live.begin() + k);
        bool same = std::all_of(l.p, l.p + l.bytes, [&](char x) { return static_cast<unsigned char>(x) == l.tag; });
        c.check(same, "content_kept", vm::fmt("bytes=%zu", l.bytes));
        std::memset(l.p, 0xee, l.bytes); pool.deallocate(l.p, l.bytes, l.align); freed[l.p] = {l.bytes, l.align}; pat += 'A' + (l.bytes % 26);
      }
      maxlive = std::max<long>(maxlive, live.size());
    }
    for (auto& l : live) c.check(std::all_of(l.p, l.p + l.bytes, [&](char x) { return static_cast<unsigned char>(x) == l.tag; }), "content_kept");
    if (c.rng.coin()) for (auto& l : live) pool.deallocate(l.p, l.bytes, l.align);
    c.check(up.frees == 0, "returned_early");
    // every aggregate: number of upstream blocks is bounded by the peak demand
  }
  for (auto& e : up.errors) c.check(false, "upstream_return", e);
  c.eval(up.frees);
  long leaked = 0; for (auto& kv : up.blocks) leaked += kv.second.live;
  c.check(leaked == 0, "all_returned", vm::fmt("%ld blocks not returned of %ld", leaked, up.allocs));
  c.event("allocations_upstream", up.allocs); c.event("reused", reused); c.event("steps", steps); c.event("peak_live", maxlive);
  c.describe(vm::fmt("steps=%ld upstream=%ld reused=%ld peak=%ld", steps, up.allocs, reused, maxlive)); c.sig(pat);
}
