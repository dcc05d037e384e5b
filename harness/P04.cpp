// P04: marginals agree with the distribution.
#include "common.h"
using namespace vph;
static void check(int n, int sh, int style, uint64_t s, int names, int zg, int zw) {
  VT vt = mkVtree(varNames(n, names), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = style;
  b.pol.zeroAt = zg, b.pol.zeroWhich = zw;
  Ref *r = b.build(m->vtree(), table(s, n));
  auto res = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(r->node));
  vp_assert(res.size() == (size_t)n, "Marginals: exactly the variables of the PSDD are reported");
  for (int i = 0; i < n; ++i) {
    auto it = res.find(vt.vars[i]);
    vp_assert(it != res.end(), "Marginals: exactly the variables of the PSDD are reported");
    double f = 0, t = 0;
    for (Asg a = 0; a < (1u << n); ++a) (a >> i & 1 ? t : f) += refWeight(r, a);
    double gf = it->second.first.parameter(), gt = it->second.second.parameter();
    if (f == 0) vp_assert(gf == NINF, "Marginals: probability of false (first component)");
    else {
      vp_assert(gf != NINF, "Marginals: probability of false (first component)");
      vp_log_eq(gf, std::log(f), "Marginals: probability of false (first component)");
    }
    if (t == 0) vp_assert(gt == NINF, "Marginals: probability of true (second component)");
    else {
      vp_assert(gt != NINF, "Marginals: probability of true (second component)");
      vp_log_eq(gt, std::log(t), "Marginals: probability of true (second component)");
    }
    Bits vars, inst;
    vars.set(vt.vars[i]);
    inst.set(vt.vars[i]);
    Probability e = psdd_node_util::Evaluate(vars, inst, r->node);
    if (t == 0) vp_assert(e.parameter() == NINF, "Marginals: agree with Evaluate");
    else vp_log_eq(gt, e.parameter(), "Marginals: agree with Evaluate");
  }
  vp_cover("done");
}
extern "C" void supports() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", supportCount(n));
  int st = vp_tier() ? vp_choice("style", 3) : (k + sh) % 3;
  check(n, sh, st, support(n, k), k & 1, -1, 0);
}
extern "C" void zeros() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", n == 2 ? 15 : vp_tier() ? 255 : 40);
  int c_zgroup = vp_choice("zgroup", 4); int c_zwhich = vp_choice("zwhich", 2);
  check(n, sh, k % 3, n == 2 || vp_tier() ? k + 1 : 255 - 6 * k, 0, c_zgroup, c_zwhich);
}
extern "C" void four() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 5);
  uint64_t k = vp_choice("support", vp_tier() ? 32 : 12);
  check(4, sh, (k + sh) % 2, support(4, vp_tier() ? k : 3 * k + sh), k % 3, -1, 0);
}
// parameters that coincide within and across nodes, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12);
  check(n, sh, k % 3, support(n, k), 1, -1, 0);
}
