// P03: the MPE query returns a maximal world and its weight.
#include "common.h"
using namespace vph;
static void check(int n, int sh, int style, uint64_t s, int names, int zg, int zw, bool list) {
  VT vt = mkVtree(varNames(n, names), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = style;
  b.pol.normalised = false;
  b.pol.zeroAt = zg, b.pol.zeroWhich = zw;
  Ref *r = b.build(m->vtree(), table(s, n));
  bool any = false;
  std::vector<double> w(1u << n);
  for (Asg a = 0; a < (1u << n); ++a) {
    w[a] = refWeight(r, a);
    any = any || w[a] != 0;
  }
  vp_assume(any);
  auto res = list ? psdd_node_util::GetMPESolution(psdd_node_util::SerializePsddNodes(r->node)) : psdd_node_util::GetMPESolution(r->node);
  Asg got = 0;
  Bits rest = res.first;
  for (int i = 0; i < n; ++i) {
    if (res.first[vt.vars[i]]) got |= 1u << i;
    rest.reset(vt.vars[i]);
  }
  vp_assert(rest.none(), "MPE: variables outside the PSDD stay false");
  vp_assert(w[got] != 0, "MPE: the world has positive weight");
  vp_log_eq(res.second.parameter(), lg(w[got]), "MPE: reported value is the weight of the world");
  for (Asg a = 0; a < (1u << n); ++a)
    if (w[a] != 0 && a != got) vp_log_le(lg(w[a]), res.second.parameter(), "MPE: no world has a larger weight");
  vp_cover("mpe");
}
extern "C" void supports() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : vp_choice("support", 64) * 4 + sh;
  if (k >= supportCount(n)) k = 0;
  check(n, sh, k % 3, support(n, k), k & 1, -1, 0, k & 1);
}
extern "C" void zeros() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", n == 2 ? 15 : vp_tier() ? 255 : 16);
  int c_zgroup = vp_choice("zgroup", 3); int c_zwhich = vp_choice("zwhich", 2);
  check(n, sh, k % 3, n == 2 || vp_tier() ? k + 1 : 255 - 13 * k, 0, c_zgroup, c_zwhich, k & 1);
}
// ties: equal weights everywhere, and equality of symbolic weights explored
extern "C" void ties() {
  vp_mode("real", 1);
  vp_mode("eqfork", 1 << 20);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  static const uint64_t F[] = {0xff, 0x96, 0x81, 0x7e, 0xe8, 0xc0};
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  bool unit = vp_choice("unit", 2);
  b.pol.unit = unit;
  b.pol.normalised = false;
  uint64_t f = F[vp_choice("f", n == 2 || unit || vp_tier() ? 6 : 3)];
  if (n == 2) f = (f & 15) ? (f & 15) : 9;
  Ref *r = b.build(m->vtree(), table(f, n));
  auto res = psdd_node_util::GetMPESolution(r->node);
  Asg got = 0;
  for (int i = 0; i < n; ++i)
    if (res.first[vt.vars[i]]) got |= 1u << i;
  double g = refWeight(r, got);
  vp_assert(g != 0, "MPE: the world has positive weight");
  vp_log_eq(res.second.parameter(), lg(g), "MPE: reported value is the weight of the world");
  for (Asg a = 0; a < (1u << n); ++a) {
    double w = refWeight(r, a);
    if (w != 0) vp_log_le(lg(w), res.second.parameter(), "MPE: no world has a larger weight");
  }
}
