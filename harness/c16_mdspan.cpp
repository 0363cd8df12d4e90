// C16: multi-dimensional views.  The monitor recomputes every address from the
// definition of the layout and compares it with what the view hands out.
#include "vm.hpp"
#include "fub/core/mdspan.hpp"
#include "fub/core/span.hpp"
#include <algorithm>
#include <numeric>
using namespace fub;
namespace {
constexpr std::ptrdiff_t D = dynamic_extent;
using Ix = std::vector<std::ptrdiff_t>;

template <std::size_t R, typename F> void for_each(const Ix& n, F f) {
  std::array<std::ptrdiff_t, R> i{};
  for (auto x : n) if (x == 0) return;
  for (;;) {
    f(i);
    std::size_t r = 0;
    for (; r < R; ++r) { if (++i[r] < n[r]) break; i[r] = 0; }
    if (r == R) return;
  }
}
template <std::size_t R> std::ptrdiff_t dot(const std::array<std::ptrdiff_t, R>& i, const std::array<std::ptrdiff_t, R>& s) {
  std::ptrdiff_t o = 0; for (std::size_t r = 0; r < R; ++r) o += i[r] * s[r]; return o;
}
template <typename M, std::size_t R, std::size_t... Is> std::ptrdiff_t call(const M& m, const std::array<std::ptrdiff_t, R>& i, std::index_sequence<Is...>) { return m(i[Is]...); }
template <typename M, std::size_t R, std::size_t... Is> auto& at(const M& m, const std::array<std::ptrdiff_t, R>& i, std::index_sequence<Is...>) { return m(i[Is]...); }

template <std::ptrdiff_t... E> Ix random_extents(vm::Case& c, int max, bool zero) {
  Ix n{E...}; for (auto& x : n) if (x == D) x = c.rng.range(zero ? 0 : 1, max); return n;
}
template <std::ptrdiff_t... E> extents<E...> make(const Ix& n) {
  using X = extents<E...>; std::array<std::ptrdiff_t, X::rank_dynamic()> d{}; std::size_t k = 0; const std::ptrdiff_t st[] = {E...};
  for (std::size_t r = 0; r < sizeof...(E); ++r) if (st[r] == D) d[k++] = n[r];
  if constexpr (X::rank_dynamic() == 0) return X{}; else return X(d);
}
std::string show(const Ix& n) { std::string s = "["; for (auto x : n) s += std::to_string(x) + ","; return s + "]"; }

template <typename Layout, std::ptrdiff_t... E> void mapping_case(vm::Case& c, const char* name, bool left) {
  using X = extents<E...>; constexpr std::size_t R = sizeof...(E); auto seq = std::make_index_sequence<R>{};
  Ix n = random_extents<E...>(c, R > 3 ? 4 : 6, true); X e = make<E...>(n);
  std::string id = std::string(name) + show(n);
  for (std::size_t r = 0; r < R; ++r) c.check(e.extent(r) == n[r], "extent", id);
  c.check(X::rank() == R, "rank", id);
  typename Layout::template mapping<X> m(e);
  std::array<std::ptrdiff_t, R> s{}; std::ptrdiff_t p = 1;
  if (left) for (std::size_t r = 0; r < R; ++r) { s[r] = p; p *= n[r]; } else for (std::size_t r = R; r-- > 0;) { s[r] = p; p *= n[r]; }
  for (std::size_t r = 0; r < R; ++r) c.check(m.stride(r) == s[r], "stride", id);
  c.check(m.required_span_size() == p, "required_span_size", id);
  std::vector<char> seen(p, 0); long cnt = 0;
  std::vector<int> buf(p); std::iota(buf.begin(), buf.end(), 1000);
  basic_mdspan<int, X, Layout> v(buf.data(), m); basic_mdspan<const int, X, Layout> cv(v);
  for_each<R>(n, [&](auto& i) {
    std::ptrdiff_t o = call(m, i, seq); ++cnt;
    if (!c.check(o == dot(i, s), "offset", id)) return;
    if (!c.check(0 <= o && o < p && !seen[o], "unique", id)) return;
    seen[o] = 1;
    c.check(&at(v, i, seq) == &buf[o] && &v(i) == &buf[o] && &at(cv, i, seq) == &buf[o], "element", id);
  });
  c.check(std::all_of(seen.begin(), seen.end(), [](char x) { return x; }), "contiguous", id);
  c.check(v.size() == p && v.get_span().size() == p && v.get_span().data() == buf.data() && v.rank() == (int)R, "observers", id);
  c.check(m.is_unique() && m.is_contiguous() && m.is_strided(), "flags", id);
  // comparison
  Ix n2 = n; if (c.rng.coin()) { int r = c.rng.range(0, R - 1); const std::ptrdiff_t st[] = {E...}; if (st[r] == D) n2[r] += c.rng.range(0, 2); }
  X e2 = make<E...>(n2); dynamic_extents<R> d2([&] { std::array<std::ptrdiff_t, R> a; std::copy(n2.begin(), n2.end(), a.begin()); return a; }());
  bool eq = n == n2;
  c.check((e == e2) == eq && (e != e2) == !eq && (e == d2) == eq && (d2 != e) == !eq, "compare_extents", id + show(n2));
  typename Layout::template mapping<X> m2(e2); c.check((m == m2) == eq && (m != m2) == !eq, "compare_mappings", id + show(n2));
  auto m3 = m; auto v3 = v; v3 = v; c.check(m3 == m && v3.data() == v.data(), "copy", id);
  c.event("elements", cnt); c.sig(id); c.describe(id);
}
template <typename L> void mapping_any(vm::Case& c, const char* n, bool left) {
  switch (c.rng.range(0, 13)) {
  case 0: return mapping_case<L, D>(c, n, left); case 1: return mapping_case<L, 5>(c, n, left);
  case 2: return mapping_case<L, D, D>(c, n, left); case 3: return mapping_case<L, 3, D>(c, n, left);
  case 4: return mapping_case<L, D, 4>(c, n, left); case 5: return mapping_case<L, 2, 3>(c, n, left);
  case 6: return mapping_case<L, D, D, D>(c, n, left); case 7: return mapping_case<L, 2, D, D>(c, n, left);
  case 8: return mapping_case<L, D, 3, D>(c, n, left); case 9: return mapping_case<L, D, 3, 2>(c, n, left);
  case 10: return mapping_case<L, 2, 3, 4>(c, n, left); case 11: return mapping_case<L, D, D, D, D>(c, n, left);
  case 12: return mapping_case<L, 2, D, 3, D>(c, n, left); default: return mapping_case<L, D, 2, D, 3>(c, n, left);
  }
}

template <std::size_t R> void strided_case(vm::Case& c) {
  // nested strides in a random order of the axes, with random padding
  auto seq = std::make_index_sequence<R>{};
  Ix n(R); for (auto& x : n) x = c.rng.range(1, R > 3 ? 3 : 5);
  std::array<std::size_t, R> ord; std::iota(ord.begin(), ord.end(), 0); for (std::size_t i = R; i-- > 1;) std::swap(ord[i], ord[c.rng.range(0, i)]);
  std::array<std::ptrdiff_t, R> s{}; std::ptrdiff_t p = c.rng.range(1, 3), last = 0;
  for (auto r : ord) { s[r] = p; p = p * n[r] + c.rng.range(0, 3); last += s[r] * (n[r] - 1); }
  std::array<std::ptrdiff_t, R> na; std::copy(n.begin(), n.end(), na.begin());
  layout_stride::mapping<dynamic_extents<R>> m(dynamic_extents<R>(na), s);
  std::string id = "stride" + show(n) + show(Ix(s.begin(), s.end())); std::set<std::ptrdiff_t> seen;
  std::vector<int> buf(p + 8, 0); mdspan<int, R, layout_stride> v(buf.data(), m);
  for_each<R>(n, [&](auto& i) {
    std::ptrdiff_t o = call(m, i, seq);
    c.check(o == dot(i, s), "offset", id); c.check(o >= 0 && o < m.required_span_size(), "required_span_size", id); c.check(seen.insert(o).second, "unique", id);
    c.check(&at(v, i, seq) == buf.data() + dot(i, s), "element", id);
  });
  for (std::size_t r = 0; r < R; ++r) c.check(m.stride(r) == s[r] && m.strides()[r] == s[r] && m.extents().extent(r) == n[r], "stride", id);
  { auto s2 = s; if (c.rng.coin()) s2[c.rng.range(0, R - 1)] += c.rng.range(0, 1); layout_stride::mapping<dynamic_extents<R>> m2(dynamic_extents<R>(na), s2); c.check((m == m2) == (s == s2) && (m != m2) == (s != s2), "compare_strides", id); }
  // conversion from the row layout
  layout_left::mapping<dynamic_extents<R>> l{dynamic_extents<R>(na)}; layout_stride::mapping<dynamic_extents<R>> q(l);
  for_each<R>(n, [&](auto& i) { c.check(call(l, i, seq) == call(q, i, seq), "convert", id); });
  c.event("elements", seen.size()); c.sig(id); c.describe(id);
}

// slicing -------------------------------------------------------------------
using Range = std::pair<std::ptrdiff_t, std::ptrdiff_t>;
struct Axis { int kind; std::ptrdiff_t lo, hi; }; // 0 index, 1 range, 2 all
Axis random_axis(vm::Case& c, int kind, std::ptrdiff_t n, bool empties) {
  Axis a{kind, 0, n};
  if (kind == 0) { a.lo = c.rng.range(0, n - 1); a.hi = a.lo + 1; }
  else if (kind == 1) { bool e = empties && c.rng.coin(0.3); a.lo = c.rng.range(0, e ? n : n - 1); a.hi = c.rng.range(a.lo + (e ? 0 : 1), n); }
  return a;
}
template <int K> auto spec(const Axis& a) { if constexpr (K == 0) return a.lo; else if constexpr (K == 1) return Range(a.lo, a.hi); else return all; }

template <typename Src, int... K> void check_slice(vm::Case& c, const Src& src, const Ix& n, std::string id, bool again);
template <typename Src, std::size_t R> void slice_random(vm::Case& c, const Src& src, const Ix& n, const std::string& id, bool again) {
  if constexpr (R == 1) { if (c.rng.coin()) check_slice<Src, 1>(c, src, n, id, again); else check_slice<Src, 2>(c, src, n, id, again); }
  else if constexpr (R == 2) switch (c.rng.range(0, 7)) {
    case 0: return check_slice<Src, 0, 1>(c, src, n, id, again); case 1: return check_slice<Src, 0, 2>(c, src, n, id, again);
    case 2: return check_slice<Src, 1, 0>(c, src, n, id, again); case 3: return check_slice<Src, 1, 1>(c, src, n, id, again);
    case 4: return check_slice<Src, 1, 2>(c, src, n, id, again); case 5: return check_slice<Src, 2, 0>(c, src, n, id, again);
    case 6: return check_slice<Src, 2, 1>(c, src, n, id, again); default: return check_slice<Src, 2, 2>(c, src, n, id, again); }
  else switch (c.rng.range(0, 9)) {
    case 0: return check_slice<Src, 0, 0, 1>(c, src, n, id, again); case 1: return check_slice<Src, 1, 1, 1>(c, src, n, id, again);
    case 2: return check_slice<Src, 2, 0, 1>(c, src, n, id, again); case 3: return check_slice<Src, 1, 2, 0>(c, src, n, id, again);
    case 4: return check_slice<Src, 0, 1, 1>(c, src, n, id, again); case 5: return check_slice<Src, 2, 2, 1>(c, src, n, id, again);
    case 6: return check_slice<Src, 1, 0, 1>(c, src, n, id, again); case 7: return check_slice<Src, 1, 2, 1>(c, src, n, id, again);
    case 8: return check_slice<Src, 0, 2, 0>(c, src, n, id, again); default: return check_slice<Src, 2, 1, 2>(c, src, n, id, again); }
}
template <typename Src, int... K> void check_slice(vm::Case& c, const Src& src, const Ix& n, std::string id, bool again) {
  constexpr std::size_t R = sizeof...(K); const int k[] = {K...}; std::array<Axis, R> ax; Ix want;
  for (auto x : n) if (x == 0) return; // nothing to index into
  std::size_t q = 0; for (std::size_t r = 0; r < R; ++r) { ax[r] = random_axis(c, k[r], n[r], true); if (k[r]) want.push_back(ax[r].hi - ax[r].lo); id += vm::fmt("/%d:%td-%td", k[r], ax[r].lo, ax[r].hi); }
  auto sub = [&](auto... a) { return subspan(src, a...); };
  auto v = [&] { std::size_t i = 0; auto next = [&](auto kk) { return spec<decltype(kk)::value>(ax[i++]); }; auto t = std::tuple<decltype(spec<K>(ax[0]))...>{next(std::integral_constant<int, K>{})...}; return std::apply(sub, t); }();
  constexpr std::size_t S = ((K != 0) + ...);
  using V = decltype(v); static_assert(V::rank() == S);
  for (std::size_t r = 0; r < S; ++r) if (!c.check(v.extent(r) == want[r], "slice_extent", id + vm::fmt(" axis %zu extent %td want %td", r, v.extent(r), want[r]))) return;
  long cnt = 0;
  for_each<S>(want, [&](auto& i) {
    std::array<std::ptrdiff_t, R> j; std::size_t t = 0; for (std::size_t r = 0; r < R; ++r) j[r] = k[r] ? ax[r].lo + i[t++] : ax[r].lo;
    ++cnt; c.check(&v(i) == &src(j), "slice_element", id);
  });
  c.event("slices"); c.event("sliced_elements", cnt); if (q == 0) c.sig(id); c.describe(id);
  if (again && cnt) slice_random<V, S>(c, v, want, id, false);
}
template <typename L, std::size_t R> void slice_case(vm::Case& c, const char* name) {
  Ix n(R); std::ptrdiff_t p = 1; std::array<std::ptrdiff_t, R> a; for (std::size_t r = 0; r < R; ++r) { n[r] = c.rng.range(1, 6); p *= n[r]; a[r] = n[r]; }
  std::vector<int> buf(p); mdspan<int, R, L> v(buf.data(), a);
  slice_random<mdspan<int, R, L>, R>(c, v, n, name + show(n), true);
}
}

ORACLE("mdspan.left", 3000, 60000) { mapping_any<layout_left>(c, "left", true); }
ORACLE("mdspan.right", 3000, 60000) { mapping_any<layout_right>(c, "right", false); }
ORACLE("mdspan.stride", 2000, 40000) { switch (c.rng.range(1, 4)) { case 1: return strided_case<1>(c); case 2: return strided_case<2>(c); case 3: return strided_case<3>(c); default: return strided_case<4>(c); } }
ORACLE("mdspan.slice", 8000, 160000) {
  switch (c.rng.range(0, 5)) { case 0: return slice_case<layout_left, 1>(c, "left"); case 1: return slice_case<layout_left, 2>(c, "left"); case 2: return slice_case<layout_left, 3>(c, "left");
  case 3: return slice_case<layout_right, 2>(c, "right"); case 4: return slice_case<layout_right, 3>(c, "right"); default: return slice_case<layout_right, 1>(c, "right"); }
}

ORACLE("span.dynamic", 4000, 80000) {
  int n = c.rng.range(0, 24); std::vector<int> b(n); std::iota(b.begin(), b.end(), 7);
  span<int> s(b); int* p = b.data(); std::string id = vm::fmt("n=%d", n);
  c.check(s.size() == n && s.empty() == (n == 0) && s.data() == p && s.size_bytes() == n * (long)sizeof(int), "observers", id);
  c.check(s.end() - s.begin() == n && std::equal(s.begin(), s.end(), b.begin()) && std::equal(s.rbegin(), s.rend(), b.rbegin()) && s.cend() - s.cbegin() == n, "iterate", id);
  for (int i = 0; i < n; ++i) c.check(&s[i] == p + i && &s(i) == p + i, "index", id);
  int k = c.rng.range(0, n), o = c.rng.range(0, n), q = c.rng.range(0, n - o); id += vm::fmt(" k=%d o=%d q=%d", k, o, q);
  auto is = [&](auto t, int off, int cnt, const char* key) { c.check(t.data() == p + off && t.size() == cnt, key, id); };
  is(s.first(k), 0, k, "first"); is(s.last(k), n - k, k, "last"); is(s.subspan(o), o, n - o, "subspan"); is(s.subspan(o, q), o, q, "subspan_count");
  is(span<int>(p + o, q), o, q, "ctor_pointer_size"); is(span<int>(p + o, p + o + q), o, q, "ctor_pointers"); is(span<const int>(s), 0, n, "const_conversion"); is(make_span(b), 0, n, "make_span");
  { const auto& cb = b; is(span<const int>(cb), 0, n, "const_container"); is(make_span(cb), 0, n, "make_span_const"); span<int> t(s); t = s.first(k); is(t, 0, k, "assign"); }
  if (n >= 5) { is(s.first<3>(), 0, 3, "first_static"); is(s.last<3>(), n - 3, 3, "last_static"); is(s.subspan<2, 3>(), 2, 3, "subspan_static"); is(span<int, 4>(s.first(4)), 0, 4, "to_static"); }
  c.sig(id); c.describe(id); c.event("spans", 12);
}
ORACLE("span.static", 400, 4000) {
  std::array<double, 7> a; for (auto& x : a) x = c.rng.u01(); double raw[7]; span<double, 7> s(a); span<double, 7> t(raw);
  auto is = [&](auto x, double* p, int n, const char* key) { c.check(x.data() == p && x.size() == n && x.end() - x.begin() == n, key); };
  is(s, a.data(), 7, "array"); is(t, raw, 7, "raw"); is(s.first<3>(), a.data(), 3, "first"); is(s.last<3>(), a.data() + 4, 3, "last"); is(s.subspan<2>(), a.data() + 2, 5, "subspan"); is(s.subspan<2, 4>(), a.data() + 2, 4, "subspan");
  is(s.first<0>(), a.data(), 0, "first"); is(s.last<0>(), a.data() + 7, 0, "last");
  int k = c.rng.range(0, 7), o = c.rng.range(0, 7), q = c.rng.range(0, 7 - o);
  is(s.first(k), a.data(), k, "first"); is(s.last(k), a.data() + 7 - k, k, "last"); is(s.subspan(o), a.data() + o, 7 - o, "subspan"); is(s.subspan(o, q), a.data() + o, q, "subspan");
  span<const double, 7> cs(s); c.check(cs.data() == a.data() && !cs.empty() && cs.size_bytes() == 56, "const"); span<double> d(s); is(d, a.data(), 7, "to_dynamic");
  is(make_span(a), a.data(), 7, "make"); is(make_span(raw), raw, 7, "make"); std::vector<double> v(7); is(span<double, 7>(v), v.data(), 7, "container");
  for (int i = 0; i < 7; ++i) c.check(&s[i] == &a[i] && &s(i) == &a[i] && s.rbegin()[i] == a[6 - i], "index");
  span<int, 0> z; c.check(z.empty() && z.size() == 0 && z.begin() == z.end(), "zero");
  c.sig(vm::fmt("%d %d %d", k, o, q)); c.event("spans", 20);
}
