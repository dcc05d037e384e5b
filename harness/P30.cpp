// P30: random sources stay in their range, follow their scale, and are determined by their seed alone.
#include "common.h"
#include <psdd/random_double_generator.h>
using namespace vph;
static uint seedOf(uint64_t c) { return c < 6 ? (uint)c : (uint)c * 2654435761u; }
extern "C" void uniform() {
  vp_mode("real", 1);
  double width = vp_real("width"), low = vp_real("lo"), lo = vp_choice("side", 2) ? low : -low, hi = lo + width;
  uint seed = seedOf(vp_choice("seed", vp_tier() ? 64 : 16));
  RandomDoubleFromUniformGenerator g(lo, hi, seed), unit(0, 1, seed);
  vp_assert(g.min() == lo && g.max() == hi, "uniform: reports its range");
  for (int i = 0; i < (vp_tier() ? 12 : 5); ++i) {
    double x = g.generate(), u = unit.generate();
    vp_assert(u >= 0 && u <= 1, "uniform: draws stay in the range");
    vp_assert(x >= lo && x <= hi, "uniform: draws stay in the range");
    vp_log_eq(x - lo, u * width, "uniform: draws scale with the range");
    vp_assert(g.min() == lo && g.max() == hi, "uniform: reports its range");
  }
  vp_cover("uniform");
}
// no "real" mode below: logarithms of constants (inside the gamma distribution) stay numbers, the scale is a symbol
extern "C" void gamma_source() {
  static const double A[] = {0.01, 0.3, 1, 1.7, 3, 40};
  double beta = vp_real("beta");
  double alpha = A[vp_choice("alpha", 6)];
  uint seed = seedOf(vp_choice("seed", vp_tier() ? 32 : 8));
  RandomDoubleFromGammaGenerator g(alpha, beta, seed), unit(alpha, 1, seed), other(alpha, 1, seed * 3 + 17);
  int n = vp_tier() ? 400 : 100, equal = 0;
  double sum = 0, last = -1;
  for (int i = 0; i < n; ++i) {
    double u = unit.generate();
    vp_assert(u > 0 || (u == 0 && alpha < 0.1), "gamma: draws are positive");
    if (i < 12) {
      double x = g.generate();
      vp_log_eq(x, u * beta, "gamma: draws scale with the second parameter");
    }
    if (u == other.generate() || u == last) ++equal;
    sum += u, last = u;
  }
  vp_assert(equal < n / 4, "gamma: draws vary, and with the seed");
  vp_assert(std::fabs(sum / n - alpha) <= 8 * std::sqrt(alpha / n), "gamma: the mean is the product of the parameters");
  vp_cover("gamma");
}
// which draws come out depends on the seed and on nothing else
extern "C" void streams() {
  double beta = vp_real("beta");
  uint seed = seedOf(vp_choice("seed", vp_tier() ? 32 : 8));
  int len = vp_tier() ? 8 : 6;
  uint64_t plan = vp_choice("plan", 1u << len);  // who draws at each step
  RandomDoubleFromUniformGenerator u1(-2, 3, seed), u2(-2, 3, seed), u3(-2, 3, seed * 3 + 17);
  RandomDoubleFromGammaGenerator g1(1.5, beta, seed), g2(1.5, beta, seed), d1(1.5, beta), z(1.5, beta, 0);
  std::vector<double> a, b, c, d, e, f;
  for (int i = 0; i < len; ++i) {
    a.push_back(u1.generate());
    c.push_back(g1.generate());
    e.push_back(d1.generate());
    if (plan >> i & 1) {                     // the twins draw in another interleaving
      b.push_back(u2.generate());
      RandomDoubleFromUniformGenerator fresh(0, 1, seed);
      fresh.generate();
      f.push_back(z.generate());
    } else {
      d.push_back(g2.generate());
      RandomDoubleFromGammaGenerator fresh(2, 1);
      fresh.generate();
    }
  }
  while (b.size() < a.size()) b.push_back(u2.generate());
  while (d.size() < c.size()) d.push_back(g2.generate());
  while (f.size() < e.size()) f.push_back(z.generate());
  bool moved = false;
  for (int i = 0; i < len; ++i) {
    vp_log_eq(a[i], b[i], "uniform: the seed determines the stream");
    vp_log_eq(c[i], d[i], "gamma: the seed determines the stream");
    vp_log_eq(e[i], f[i], "gamma: without a seed the stream is that of seed zero");
    moved = moved || a[i] != u3.generate();
  }
  vp_assert(moved, "uniform: another seed gives another stream");
  vp_cover("streams");
}
// several uniform sources with ranges of one width, drawing in turn
extern "C" void ranges() {
  vp_mode("real", 1);
  double a = vp_real("a"), b = vp_real("b"), w = vp_choice("unit", 2) ? 1 : vp_real("width");
  uint seed = seedOf(vp_choice("seed", 6));
  double lo[3] = {a, -b, 0};
  RandomDoubleFromUniformGenerator g0(lo[0], lo[0] + w, seed), g1(lo[1], lo[1] + w, seed), g2(lo[2], lo[2] + w, seed), unit(0, 1, seed);
  RandomDoubleFromUniformGenerator *g[3] = {&g0, &g1, &g2};
  std::vector<double> u;
  for (int i = 0; i < 8; ++i) u.push_back(unit.generate());
  size_t at[3] = {0, 0, 0};
  for (int i = 0; i < (vp_tier() ? 6 : 4); ++i) {
    int k = vp_choice("source", 3);
    vp_log_eq(g[k]->generate() - lo[k], u[at[k]++] * w, "uniform: draws depend on the range and seed of their source alone");
    for (int j = 0; j < 3; ++j) vp_assert(g[j]->min() == lo[j] && g[j]->max() == lo[j] + w, "uniform: reports its range");
  }
  vp_cover("ranges");
}
// no seed given
extern "C" void defaults() {
  static const double A[] = {0.4, 1, 2, 2.5, 17, 300};
  double alpha = A[vp_choice("alpha", 6)], beta = A[vp_choice("beta", 6)];
  RandomDoubleFromGammaGenerator g(alpha, beta), h(alpha, beta), z(alpha, beta, 0);
  for (int i = 0; i < 8; ++i) {
    double x = g.generate();
    vp_log_eq(x, h.generate(), "gamma: two sources without a seed give one stream");
    vp_log_eq(x, z.generate(), "gamma: without a seed the stream is that of seed zero");
  }
  vp_cover("defaults");
}
