// P01: Evaluate returns the total weight of the worlds that agree with the evidence.
#include "common.h"
using namespace vph;
static void check(int n, int shapeK, int style, uint64_t sup, int names, int zeroAt, int zeroWhich, bool fromList) {
  VT vt = mkVtree(varNames(n, names), shapeK);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = style;
  b.pol.zeroAt = zeroAt;
  b.pol.zeroWhich = zeroWhich;
  Ref *r = b.build(m->vtree(), table(sup, n));
  Bits vars, inst;
  uint32_t known = 0, val = 0;
  // values of variables that are not mentioned, and of variables outside the PSDD, are arbitrary
  uint64_t noise = vp_bits("inst", 64), nv = vp_bits("vars", 64);
  ((uint64_t *)&inst)[0] = noise;
  ((uint64_t *)&vars)[0] = nv;
  Probability p = fromList ? psdd_node_util::Evaluate(vars, inst, psdd_node_util::SerializePsddNodes(r->node)) : psdd_node_util::Evaluate(vars, inst, r->node);
  for (int i = 0; i < n; ++i) {
    if (vars[vt.vars[i]]) {
      known |= 1u << i;
      if (inst[vt.vars[i]]) val |= 1u << i;
    }
  }
  double total = 0;
  bool any = false;
  for (Asg a = 0; a < (1u << n); ++a) {
    if ((a & known) != val) continue;
    double w = refWeight(r, a);
    if (w == 0) continue;
    any = true;
    total += w;
  }
  if (!any) {
    vp_cover("zero");
    vp_assert(p == PsddParameter::CreateFromDecimal(0) && p.parameter() == NINF, "Evaluate: zero exactly when no supported world agrees");
  } else {
    vp_assert(p.parameter() != NINF, "Evaluate: positive when a supported world agrees");
    vp_log_eq(p.parameter(), std::log(total), "Evaluate: sum of the weights of the agreeing worlds");
    if (known == 0) {
      vp_cover("empty evidence");
      vp_log_eq(p.parameter(), 0.0, "Evaluate: empty evidence has probability one");
    }
    if (known == (1u << n) - 1) vp_cover("complete evidence");
  }
}
// every support of up to three variables; one element style each in the quick tier
extern "C" void supports() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3);
  int sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", supportCount(n));
  int style = vp_tier() ? vp_choice("style", 3) : (k + sh) % 3;
  check(n, sh, style, support(n, k), k % 2, -1, 0, (k + style) & 1);
}
// one parameter group holds a zero weight
extern "C" void zeros() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2);
  int sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", vp_tier() ? supportCount(n) : 24);
  uint64_t s = n == 2 ? (k % 15) + 1 : vp_tier() ? k + 1 : 255 - k * 10;
  int c_zgroup = vp_choice("zgroup", 4); int c_zwhich = vp_choice("zwhich", 2);
  check(n, sh, k % 3, s, 0, c_zgroup, c_zwhich, k & 1);
}
// four variables, all tree shapes
extern "C" void four() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 5);
  uint64_t k = vp_choice("support", vp_tier() ? 32 : 3);
  check(4, sh, (k + sh) % 3, support(4, vp_tier() ? k : (k * 7 + sh * 5 + 5)), k % 2, -1, 0, k & 1);
}
// variable numbers on both sides of machine-word boundaries
extern "C" void wide() {
  vp_mode("real", 1);
  VT vt = mkVtree(varNames(4, 2), vp_choice("shape", 5));
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = vp_choice("style", 2);
  static const uint64_t F[] = {0xffff, 0x6996, 0xcafe, 0x8421};
  Ref *r = b.build(m->vtree(), table(F[vp_choice("support", 4)], 4));
  Bits vars, inst;
  Asg known = vp_choice("known", 16), val = vp_choice("value", 2) ? 0xa : 0x6;
  for (int i = 0; i < 3; ++i) ((uint64_t *)&inst)[i] = vp_bits("inst", 64);
  setBits(&vars, vt.vars, known);
  for (int i = 0; i < 4; ++i)
    if (known >> i & 1) inst[vt.vars[i]] = val >> i & 1;
  Probability p = psdd_node_util::Evaluate(vars, inst, r->node);
  double total = 0;
  bool any = false;
  for (Asg a = 0; a < 16; ++a) {
    if ((a & known) != (val & known)) continue;
    double w = refWeight(r, a);
    if (w == 0) continue;
    any = true;
    total += w;
  }
  if (any) vp_log_eq(p.parameter(), std::log(total), "Evaluate: sum of the weights of the agreeing worlds");
  else vp_assert(p.parameter() == NINF, "Evaluate: zero exactly when no supported world agrees");
}
// parameters that coincide within and across nodes, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12);
  check(n, sh, k % 3, support(n, k), 1, -1, 0, k & 1);
}
