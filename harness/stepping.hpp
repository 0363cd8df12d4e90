#pragma once
// whole steps of periodic patches with the real update
#include "model.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"
namespace md {
template <int R, typename T> fub::StridedDataView<T, R + 1> view(Field& f) {
  std::array<std::ptrdiff_t, R + 1> ext{}, str{}, org{};
  for (int d = 0; d < R; ++d) { ext[d] = f.hi[d] - f.lo[d]; str[d] = f.stride(d); org[d] = f.lo[d]; }
  ext[R] = f.ncomp; str[R] = f.cstride;
  fub::layout_stride::mapping<fub::dynamic_extents<R + 1>> map{fub::dynamic_extents<R + 1>(ext), str};
  return fub::StridedDataView<T, R + 1>(fub::mdspan<T, R + 1, fub::layout_stride>(f.ptr(0), map), org);
}
template <int R> void apply(Pol p, Field& n, Field& u, Field& f, double dt, double dx, int dir) {
  auto nv = view<R, double>(n); auto uv = view<R, const double>(u); auto fv = view<R, const double>(f);
  fub::Duration t(dt); fub::Direction d = fub::Direction(dir);
  switch (p) {
  case Pol::seq: case Pol::dflt: fub::HyperbolicPatchIntegrator<fub::execution::SequentialTag>::UpdateConservatively(nv, uv, fv, t, dx, d); break;
  case Pol::simd: fub::HyperbolicPatchIntegrator<fub::execution::SimdTag>::UpdateConservatively(nv, uv, fv, t, dx, d); break;
  case Pol::omp: fub::HyperbolicPatchIntegrator<fub::execution::OpenMpTag>::UpdateConservatively(nv, uv, fv, t, dx, d); break;
  case Pol::ompsimd: fub::HyperbolicPatchIntegrator<fub::execution::OpenMpSimdTag>::UpdateConservatively(nv, uv, fv, t, dx, d); break;
  }
}
inline void update(Pol p, Field& n, Field& u, Field& f, double dt, double dx, int dir) {
  if (n.rank == 1) apply<1>(p, n, u, f, dt, dx, dir); else if (n.rank == 2) apply<2>(p, n, u, f, dt, dx, dir); else apply<3>(p, n, u, f, dt, dx, dir);
}
inline void periodic(Field& q) { // q.lo/hi is the interior; fill the whole allocation by wrapping
  for (int k = 0; k < q.ncomp; ++k)
    for (auto z = q.alo[2]; z < q.ahi[2]; ++z) for (auto y = q.alo[1]; y < q.ahi[1]; ++y) for (auto x = q.alo[0]; x < q.ahi[0]; ++x) {
      Idx i{x, y, z}, s = i; bool in = true;
      for (int d = 0; d < q.rank; ++d) { auto n = q.hi[d] - q.lo[d]; if (i[d] < q.lo[d] || i[d] >= q.hi[d]) in = false; s[d] = q.lo[d] + ((i[d] - q.lo[d]) % n + n) % n; }
      if (!in) q.at(k, i) = q.at(k, s);
    }
}
inline Field grown(const Field& q, int dir, int w) { Field g = q; for (int d = 0; d < q.rank; ++d) { if (d == dir || true) { g.lo[d] -= (d == dir ? w : 0); g.hi[d] += (d == dir ? w : 0); } } return g; }
} // namespace md
