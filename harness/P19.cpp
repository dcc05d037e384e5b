// P19: compiling one factor represents its table exactly.
#include "common.h"
#include "uai.h"
using namespace vph;
static void one(int n, int sh, int names, const std::vector<int> &scope, uint64_t zeros, int other, int repeat = -1) {
  VT vt = mkVtree(varNames(n, names), sh);
  // positions to file numbers: the file numbers variables from zero
  Uai u;
  u.vars = 0;
  for (SddLiteral v : vt.vars) u.vars = std::max<int>(u.vars, v);
  Factor f = makeFactor(vt, scope, zeros);
  if (repeat >= 0) {
    double x = vp_real("repeated"), y = vp_real("repeated");
    for (size_t j = 0; j < f.w.size(); ++j)
      if (f.w[j] != 0) f.w[j] = repeat >> j & 1 ? x : y;
  }
  if (other) u.fs.push_back(makeFactor(vt, {other == 1 ? n - 1 : 0}, 0));
  u.fs.push_back(f);
  size_t idx = u.fs.size() - 1;
  PgmCompiler *c = makeCompiler(u, vt);
  auto r = c->compile_factor(idx);
  bool any = false;
  for (double w : f.w) any = any || w != 0;
  if (!any) {
    vp_assert(r.first == nullptr, "zero table: the null PSDD");
    vp_assert(r.second.parameter() == NINF, "zero table: the constant zero");
    vp_cover("zero table");
    return;
  }
  vp_assert(r.first != nullptr && conforms(r.first, c->psdd_manager()->vtree()), "factor: conforms to the vtree");
  double z = std::exp(r.second.parameter());
  for (Asg a = 0; a < (1u << n); ++a) {
    double e = entry(f, a);
    auto m = asgMap(vt.vars, a);
    vp_assert(nodeSupport(r.first, m) == (e != 0), "factor: zero entries are outside the support, all others inside");
    if (e != 0) vp_log_eq(nodeWeight(r.first, m) * z, e, "factor: PSDD times constant is the table entry");
  }
  vp_cover("factor");
  delete c->psdd_manager();
}
extern "C" void small() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  auto ss = scopes(n, 2);
  int s = vp_choice("scope", ss.size()), k = ss[s].size();
  int nm = vp_choice("names", 2), z = vp_choice("zeros", 1u << (1u << k)), b = vp_choice("before", 2);
  one(n, sh, nm, ss[s], z, b);
}
extern "C" void three() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 2);
  auto ss = chains(mkVtree(varNames(3, 0), sh), 3, 3);
  int s = vp_choice("scope", ss.size()), k = ss[s].size();
  uint64_t z = k < 3 ? vp_choice("zeros", 1u << (1u << k)) : vp_tier() ? vp_choice("zeros", 256) : (vp_choice("zeros", 64) * 37 + s * 5 + 1) & 255;
  one(3, sh, 0, ss[s], z, 0);
}
// four variables, factors of up to three of them
extern "C" void four() {
  vp_mode("real", 1);
  static const uint64_t Z[] = {0, 0xff, 0x80, 0x01, 0x7f, 0xfe, 0x0f, 0xf0, 0xaa, 0x69, 0x1b, 0xca};
  int sh = vp_choice("shape", 5), names = vp_choice("names", 2) * 2;
  auto ss = chains(mkVtree(varNames(4, names), sh), 4, 3);
  int s = vp_choice("scope", ss.size()), zi = vp_choice("zeros", vp_tier() ? 12 : 3);
  uint64_t z = Z[(zi * 5 + s) % 12] & ((1u << (1u << ss[s].size())) - 1);
  one(4, sh, names, ss[s], z, s % 3);
}
// factors over all four variables
extern "C" void wide() {
  vp_mode("real", 1);
  static const uint64_t Z[] = {0xfffe, 0x7fff, 0xaaaa, 0x6996, 0x9669, 0x0fff, 0xfff0, 0x3f3f, 0xf7ef, 0xffff, 0xcccc, 0xe7b3};
  static const int P[][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {2, 0, 3, 1}, {0, 2, 1, 3}, {3, 0, 1, 2}};
  int sh = vp_choice("shape", 5), s = vp_choice("scope", 6);
  std::vector<int> sc(P[s], P[s] + 4);
  if (!chain(mkVtree(varNames(4, 0), sh), sc)) vp_end();
  int zi = vp_choice("zeros", 12);
  one(4, sh, 0, sc, Z[zi], 0);
}
// tables with repeated entries, where nodes are shared
extern "C" void repeated() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  auto ss = chains(mkVtree(varNames(n, 0), sh), n, n);
  int s = vp_choice("scope", ss.size()), k = ss[s].size();
  int r = k < 3 || vp_tier() ? vp_choice("pattern", 1u << (1u << k)) : (vp_choice("pattern", 24) * 11 + s) & 255;
  one(n, sh, 0, ss[s], k == 3 && (r & 1) ? (r * 73) & 255 : 0, 0, r);
}
// a factor whose variables are not on one path of the vtree
extern "C" void scattered() {
  vp_mode("real", 1);
  int k = vp_choice("order", 6);
  static const int P[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  one(3, 1, 0, std::vector<int>(P[k], P[k] + 3), 0, 0);
}
