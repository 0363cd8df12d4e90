#pragma once
// The harness's own solution of the Riemann problems of the Euler equations of
// a perfect gas, of the shallow water and of the Burgers equation.
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
namespace ref {
struct Gas { double rho, u, p; };
inline double sound(const Gas& s, double g) { return std::sqrt(g * s.p / s.rho); }
inline bool vacuum(const Gas& L, const Gas& R, double g, double margin = 0) { return (2 * (sound(L, g) + sound(R, g)) / (g - 1)) * (1 - margin) <= R.u - L.u; }
// velocity jump across the wave that connects k with pressure p
inline double wave(const Gas& k, double p, double g) {
  if (p > k.p) return (p - k.p) / std::sqrt(0.5 * k.rho * ((g + 1) * p + (g - 1) * k.p));
  return 2 * sound(k, g) / (g - 1) * (std::exp((g - 1) / (2 * g) * std::log(p / k.p)) - 1);
}
struct Star { double p, u; };
inline Star star(const Gas& L, const Gas& R, double g) {
  auto f = [&](double x) { double p = std::exp(x); return wave(L, p, g) + wave(R, p, g) + R.u - L.u; };
  double lo = std::log(std::min(L.p, R.p)), hi = std::log(std::max(L.p, R.p)); int n = 0;
  while (f(lo) > 0 && n++ < 2000) lo -= 2; n = 0; while (f(hi) < 0 && n++ < 2000) hi += 2;
  for (int i = 0; i < 200; ++i) { double m = 0.5 * (lo + hi); (f(m) > 0 ? hi : lo) = m; }
  double p = std::exp(0.5 * (lo + hi)); return {p, 0.5 * (L.u + R.u) + 0.5 * (wave(R, p, g) - wave(L, p, g))};
}
// speeds of the edges of the outer waves, {left fast, left slow, right slow, right fast}
inline std::array<double, 4> edges(const Gas& L, const Gas& R, double g, Star s) {
  std::array<double, 4> e; double aL = sound(L, g), aR = sound(R, g);
  if (s.p > L.p) e[0] = e[1] = L.u - aL * std::sqrt(((g + 1) * s.p / L.p + g - 1) / (2 * g)); else { e[0] = L.u - aL; e[1] = s.u - aL * std::pow(s.p / L.p, (g - 1) / (2 * g)); }
  if (s.p > R.p) e[2] = e[3] = R.u + aR * std::sqrt(((g + 1) * s.p / R.p + g - 1) / (2 * g)); else { e[3] = R.u + aR; e[2] = s.u + aR * std::pow(s.p / R.p, (g - 1) / (2 * g)); }
  return e;
}
// state on the ray x/t = xi; side is -1 left of the contact, +1 right of it
inline Gas sample(const Gas& L, const Gas& R, double g, Star s, double xi, int& side) {
  auto e = edges(L, R, g, s); side = xi <= s.u ? -1 : 1; const Gas& k = side < 0 ? L : R; double sg = side < 0 ? 1 : -1; double fast = side < 0 ? e[0] : e[3], slow = side < 0 ? e[1] : e[2];
  if (sg * (xi - fast) <= 0) return k;
  if (sg * (xi - slow) >= 0) {
    double q = s.p / k.p, z = (g - 1) / (g + 1);
    return {s.p > k.p ? k.rho * (q + z) / (z * q + 1) : k.rho * std::pow(q, 1 / g), s.u, s.p};
  }
  double a = sound(k, g), u = 2 / (g + 1) * (sg * a + 0.5 * (g - 1) * k.u + xi), af = sg * (u - xi); // u -+ a = xi inside of a rarefaction
  double rho = k.rho * std::pow(af / a, 2 / (g - 1)); return {rho, u, k.p * std::pow(af / a, 2 * g / (g - 1))};
}
struct Water { double h, u; };
inline double wwave(const Water& k, double h, double g) { return h > k.h ? (h - k.h) * std::sqrt(0.5 * g * (h + k.h) / (h * k.h)) : 2 * (std::sqrt(g * h) - std::sqrt(g * k.h)); }
inline Water wstar(const Water& L, const Water& R, double g) {
  auto f = [&](double x) { double h = std::exp(x); return wwave(L, h, g) + wwave(R, h, g) + R.u - L.u; };
  double lo = std::log(std::min(L.h, R.h)), hi = std::log(std::max(L.h, R.h)); int n = 0; while (f(lo) > 0 && n++ < 2000) lo -= 2; n = 0; while (f(hi) < 0 && n++ < 2000) hi += 2;
  for (int i = 0; i < 200; ++i) { double m = 0.5 * (lo + hi); (f(m) > 0 ? hi : lo) = m; }
  double h = std::exp(0.5 * (lo + hi)); return {h, 0.5 * (L.u + R.u) + 0.5 * (wwave(R, h, g) - wwave(L, h, g))};
}
inline std::array<double, 4> wedges(const Water& L, const Water& R, double g, Water s) {
  std::array<double, 4> e;
  if (s.h > L.h) e[0] = e[1] = L.u - std::sqrt(0.5 * g * s.h * (s.h + L.h) / L.h); else { e[0] = L.u - std::sqrt(g * L.h); e[1] = s.u - std::sqrt(g * s.h); }
  if (s.h > R.h) e[2] = e[3] = R.u + std::sqrt(0.5 * g * s.h * (s.h + R.h) / R.h); else { e[3] = R.u + std::sqrt(g * R.h); e[2] = s.u + std::sqrt(g * s.h); }
  return e;
}
inline Water wsample(const Water& L, const Water& R, double g, Water s, double xi, int& side) {
  auto e = wedges(L, R, g, s); side = xi <= s.u ? -1 : 1; const Water& k = side < 0 ? L : R; double sg = side < 0 ? 1 : -1, fast = side < 0 ? e[0] : e[3], slow = side < 0 ? e[1] : e[2];
  if (sg * (xi - fast) <= 0) return k; if (sg * (xi - slow) >= 0) return s;
  double c = std::sqrt(g * k.h), u = (2 * xi + k.u + 2 * sg * c) / 3, cf = sg * (u - xi); return {cf * cf / g, u};
}
} // namespace ref
