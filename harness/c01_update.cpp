// C01: the conservative patch update, and conservation of whole runs.
#include "stepping.hpp"
using namespace md;

ORACLE("update", 6000, 60000) {
  auto& r = c.rng;
  int rank = r.range(1, 3), nc = r.range(1, 5), dir = r.range(0, rank - 1);
  Idx lo{}, hi{}; for (int d = 0; d < rank; ++d) { lo[d] = r.range(-9, 9); hi[d] = lo[d] + (d == 0 ? (r.coin(0.2) ? r.range(1, 3) : r.range(1, 40)) : r.range(1, 6)); }
  auto glo = lo, ghi = hi;
  if (r.coin(0.4)) for (int d = 0; d < rank; ++d) { glo[d] -= r.range(0, 2); ghi[d] += r.range(0, 2); }
  ghi[dir] += 1;
  Field f(rank, nc, glo, ghi, r.range(0, 2), r.range(0, 2), r.range(0, 3));
  bool inplace = r.coin(0.3);
  Field u(rank, nc, lo, hi, r.range(0, 2), r.range(0, 2), r.range(0, 3)), n(rank, nc, lo, hi, r.range(0, 2), r.range(0, 2), r.range(0, 3));
  double mag = r.logu(1e-6, 1e6);
  for (int k = 0; k < nc; ++k) { u.each([&](Idx i) { u.at(k, i) = mag * r.uniform(-1, 1); }); f.each([&](Idx i) { f.at(k, i) = mag * (r.coin(0.05) ? 0.0 : r.uniform(-1, 1)); }); }
  double dt = r.logu(1e-6, 10), dx = r.logu(1e-4, 10);
  if (r.coin(0.05)) dt = 0;
  Pol p = r.choose({Pol::seq, Pol::simd, Pol::simd, Pol::omp, Pol::ompsimd});
  c.describe(vm::fmt("rank %d dir %d extents %ld %ld %ld comps %d policy %s inplace %d dt %g dx %g", rank, dir, long(hi[0] - lo[0]), long(hi[1] - lo[1]), long(hi[2] - lo[2]), nc, name(p), int(inplace), dt, dx));
  Field u0 = u, f0 = f;
  Field& out = inplace ? u : n;
  update(p, out, u, f, dt, dx, dir);
  c.check(n.guards_intact() && u.guards_intact() && f.guards_intact(), "writes-outside", "a value outside of the update region changed");
  c.check(!std::memcmp(f.buf.data(), f0.buf.data(), f.buf.size() * 8), "flux-changed", "fluxes were modified");
  if (!inplace) c.check(!std::memcmp(u.buf.data(), u0.buf.data(), u.buf.size() * 8), "prev-changed", "the previous state was modified");
  for (int k = 0; k < nc; ++k) out.each([&](Idx i) {
    Idx j = i; j[dir] += 1; double a = u0.at(k, i), fl = f.at(k, i), fr = f.at(k, j), l = dt / dx;
    c.close(out.at(k, i), a + l * (fl - fr), 4e-16 * (std::abs(a) + 2 * l * (std::abs(fl) + std::abs(fr))), "value", vm::fmt("component %d cell (%ld,%ld,%ld)", k, long(i[0]), long(i[1]), long(i[2])));
  });
  c.event("cells", u.cells() * nc); c.event(std::string("policy_") + name(p));
  c.sig(vm::fmt("%d %d %ld %ld %ld %d %s %d", rank, dir, long(hi[0] - lo[0]), long(hi[1] - lo[1]), long(hi[2] - lo[2]), nc, name(p), int(inplace)));
}


ORACLE("periodic", 500, 6000) {
  auto& r = c.rng;
  auto& fac = methods()[std::size_t(c.index % long(methods().size()))];
  auto m = fac.make(r); auto& e = m->eq(); int w = m->width, R = e.rank;
  Idx lo{}, hi{}; for (int d = 0; d < R; ++d) { lo[d] = r.range(-3, 3); hi[d] = lo[d] + (R == 1 ? r.range(std::max(2, w), 40) : d == 0 ? r.range(2, 13) : r.range(2, R == 2 ? 9 : 4)); }
  Field q(R, e.ncomp, lo, hi, w, w, 0);
  Regime reg = m->order > 1 || r.coin(0.6) ? Regime::mild : Regime::moderate;
  // piecewise constant data with a few distinct states
  std::vector<Vec> st(std::size_t(r.range(2, 4)), Vec(std::size_t(e.ncomp)));
  for (auto& s : st) e.random(r, reg, s.data());
  q.each([&](Idx i) { q.set(i, st[std::size_t(r.range(0, int(st.size()) - 1))].data()); });
  int steps = R == 3 ? r.range(1, 3) : r.range(1, 8);
  Pol pf = m->policy(r), pu = r.choose({Pol::seq, Pol::simd}), pc = r.choose({Pol::seq, Pol::simd});
  c.describe(vm::fmt("%s extents %ld %ld %ld steps %d flux policy %s update %s", fac.name.c_str(), long(hi[0] - lo[0]), long(hi[1] - lo[1]), long(hi[2] - lo[2]), steps, name(pf), name(pu)));
  Vec sum0(std::size_t(e.ncons)), mag(std::size_t(e.ncons));
  q.each([&](Idx i) { for (int k = 0; k < e.ncons; ++k) { sum0[k] += q.at(k, i); mag[k] += std::abs(q.at(k, i)); } });
  double dx = r.logu(0.01, 10); long done = 0; std::string order;
  for (int s = 0; s < steps; ++s) for (int dd = 0; dd < R; ++dd) {
    int dir = r.range(0, R - 1);
    periodic(q);
    double smax = 0; q.each([&](Idx i) { Vec v(std::size_t(e.ncomp)); q.get(i, v.data()); smax = std::max(smax, e.speed(v.data(), dir)); });
    double dt = (m->order > 1 ? 0.2 : 0.35) * dx / std::max(smax, 1e-3);
    Field g = grown(q, dir, w);
    Idx fhi = hi; fhi[dir] += 1;
    Field f(R, e.ncons, lo, fhi, 1, 1, 0);
    m->fluxes(pf, f, g, dt, dx, dir);
    c.check(f.guards_intact(), "flux-writes-outside", "a value outside of the face box was written");
    // both images of the periodic boundary face carry the same flux
    double fm = 0; f.each([&](Idx i) { for (int k = 0; k < e.ncons; ++k) fm = std::max(fm, std::abs(f.at(k, i))); });
    f.each([&](Idx i) { if (i[dir] != lo[dir]) return; Idx j = i; j[dir] = hi[dir]; for (int k = 0; k < e.ncons; ++k) c.close(f.at(k, i), f.at(k, j), 1e-10 * fm, "boundary-face", "flux differs between the two images of a periodic face"); });
    f.each([&](Idx i) { if (i[dir] != lo[dir]) return; Idx j = i; j[dir] = hi[dir]; for (int k = 0; k < e.ncons; ++k) f.at(k, j) = f.at(k, i); });
    // update the conserved components in place
    Field qc = q; qc.ncomp = e.ncons; // same storage layout, fewer components
    Field out = qc;
    Vec before(std::size_t(e.ncons)); qc.each([&](Idx i) { for (int k = 0; k < e.ncons; ++k) before[k] += qc.at(k, i); });
    update(pu, out, qc, f, dt, dx, dir);
    bool ok = true;
    out.each([&](Idx i) { Vec v(std::size_t(e.ncomp)); for (int k = 0; k < e.ncons; ++k) { v[k] = out.at(k, i); ok = ok && std::isfinite(v[k]); }
      if (e.fam == Fam::shallow || e.is_euler()) ok = ok && v[0] > 0;
      if (e.fam == Fam::gas || e.fam == Fam::gasmix) { double k2 = 0; for (int d = 0; d < R; ++d) k2 += 0.5 * v[1 + d] * v[1 + d] / v[0]; ok = ok && v[1 + R] - k2 > 0; } });
    for (int k = 0; k < e.ncons; ++k) mag[k] += dt / dx * fm * 2;
    done++; order += char('x' + dir);
    Vec sum(std::size_t(e.ncons)); out.each([&](Idx i) { for (int k = 0; k < e.ncons; ++k) sum[k] += out.at(k, i); });
    for (int k = 0; k < e.ncons; ++k) c.close(sum[k], before[k], 1e-14 * (mag[k] + fm * dt / dx * double(q.cells())), "total", "total of " + e.comps[k].var + " after " + order);
    // the whole history; completing a reacting state rewrites the energy up to the tolerance of its temperature iteration
    for (int k = 0; k < e.ncons; ++k) c.close(sum[k], sum0[k], (e.fam == Fam::reacting ? 1e-9 : 1e-12) * mag[k] * double(done), "history-total", "total of " + e.comps[k].var + " after " + order);
    if (!ok) { c.event("left_admissible_set"); break; }
    q = out; q.ncomp = e.ncomp;
    Field qq = q; qq.ncomp = e.ncons;
    e.complete_view(pc, q, qq);
    // completing must not touch the conserved values
    q.each([&](Idx i) { for (int k = 0; k < e.ncons; ++k) if (e.comps[k].var != "Species") c.close(q.at(k, i), out.at(k, i), e.fam == Fam::reacting ? 1e-9 * mag[k] : 1e-14 * std::abs(out.at(k, i)), "complete-changes-conserved", e.comps[k].var); });
  }
  c.event("sweeps", done); c.event("method_" + fac.name); c.sig(fac.name + " " + order + name(pf) + name(pu) + vm::str(hi[0] - lo[0], ',', hi[1] - lo[1]));
}
