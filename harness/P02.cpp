// P02: Multiply returns the normalised product and its constant.
#include "common.h"
using namespace vph;
static void checkNormalised(PsddNode *root) {
  std::set<PsddNode *> ns;
  reach(root, &ns);
  for (PsddNode *x : ns) {
    if (PsddDecisionNode *d = x->psdd_decision_node()) {
      double s = 0;
      for (const PsddParameter &p : d->parameters()) s += std::exp(p.parameter());
      vp_log_eq(s, 1.0, "Multiply: parameters of a decision node sum to one");
    } else if (PsddTopNode *t = x->psdd_top_node()) {
      vp_log_eq(std::exp(t->true_parameter().parameter()) + std::exp(t->false_parameter().parameter()), 1.0, "Multiply: parameters of a top node sum to one");
    }
  }
}
static void prod(const VT &vt, PsddManager *m, Ref *r1, Ref *r2, uintmax_t flag) {
  int n = vt.vars.size();
  auto res = m->Multiply(r1->node, r2->node, flag);
  bool any = false;
  for (Asg a = 0; a < (1u << n); ++a) any = any || (refSupport(r1, a) && refSupport(r2, a));
  if (!any) {
    vp_cover("disjoint");
    vp_assert(res.first == nullptr, "Multiply: null exactly when no world has weight in both");
    vp_assert(res.second.parameter() == NINF && res.second == PsddParameter::CreateFromDecimal(0), "Multiply: constant zero with the null result");
    return;
  }
  vp_assert(res.first != nullptr, "Multiply: null exactly when no world has weight in both");
  vp_assert(conforms(res.first, m->vtree()), "Multiply: result conforms to the vtree");
  double z = std::exp(res.second.parameter());
  for (Asg a = 0; a < (1u << n); ++a) {
    double w1 = refWeight(r1, a), w2 = w1 == 0 ? 0 : refWeight(r2, a);
    double g = nodeWeight(res.first, asgMap(vt.vars, a));
    if (w1 == 0 || w2 == 0) vp_assert(g == 0, "Multiply: support is the intersection");
    else {
      vp_assert(g != 0, "Multiply: support is the intersection");
      vp_log_eq(std::log(g * z), std::log(w1 * w2), "Multiply: result times constant is the product of the weights");
    }
  }
  checkNormalised(res.first);
  std::set<PsddNode *> ns;
  reach(res.first, &ns);
  for (PsddNode *x : ns) vp_assert(x->flag_index() == flag, "Multiply: result carries the requested flag");
  vp_cover("product");
}
static void pairOf(int n, int sh, uint64_t s1, uint64_t s2, int st1, int st2, int names, bool rev2, bool norm) {
  VT vt = mkVtree(varNames(n, names), sh);
  PsddManager *m = mkManager(vt);
  Builder b1(m, vt.vars), b2(m, vt.vars);
  b1.style = st1, b2.style = st2;
  b2.reverse = rev2;
  b1.flag = 1, b2.flag = 2;
  b1.pol.normalised = b2.pol.normalised = norm;
  b2.pol.name = "v";
  Ref *r1 = b1.build(m->vtree(), table(s1, n)), *r2 = b2.build(m->vtree(), table(s2, n));
  prod(vt, m, r1, r2, 3);
}
extern "C" void two() {
  vp_mode("real", 1);
  uint64_t a = vp_choice("s1", 15), b = vp_choice("s2", 15);
  pairOf(2, 0, a + 1, b + 1, (a + b) % 3, (a * 2 + b) % 3, a & 1, b & 1, vp_choice("normalised", 2));
}
extern "C" void three() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 2);
  uint64_t a = vp_choice("s1", 255) + 1;
  uint64_t k = vp_choice("s2", vp_tier() ? 40 : 4);
  uint64_t b = (a * (37 + 2 * k) + k * 91) % 255 + 1;
  pairOf(3, sh, a, b, vp_tier() ? k % 3 : 0, (a + k) % 2, k & 1, (a >> 1) & 1, k & 1);
}
extern "C" void four() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 5);
  uint64_t a = vp_choice("s1", vp_tier() ? 32 : 8), b = (a * 5 + 3 * sh + 1) % 32;
  pairOf(4, sh, support(4, a), support(4, b), 0, 0, 0, a & 1, false);
}
// multiplying a node by itself, and by the unconstrained PSDD
extern "C" void special() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  bool self = vp_choice("self", 2);
  uint64_t k = vp_choice("support", n == 2 ? 15 : vp_tier() ? 255 : 60);
  uint64_t s = n == 2 || vp_tier() ? k + 1 : k * 4 + 3;
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = self ? k % 2 : k % 3;
  b.pol.normalised = !self;
  Ref *r = b.build(m->vtree(), table(s, n));
  if (self) {
    prod(vt, m, r, r, 7);
    return;
  }
  PsddNode *t = m->GetTrueNode(m->vtree(), 5);
  auto res = m->Multiply(t, r->node, 0);
  vp_assert(res.first != nullptr, "Multiply: null exactly when no world has weight in both");
  double z = std::exp(res.second.parameter());
  for (Asg a = 0; a < (1u << n); ++a) {
    double w = refWeight(r, a), g = nodeWeight(res.first, asgMap(vt.vars, a));
    if (w == 0) vp_assert(g == 0, "Multiply: support is the intersection");
    else vp_log_eq(std::log(g * z), std::log(w), "Multiply: the unconstrained PSDD is neutral");
  }
}
// parameters that coincide within and across the two PSDDs, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t c = supportCount(n), a = n < 3 ? vp_choice("s1", c) : vp_choice("s1", vp_tier() ? 85 : 17) * (vp_tier() ? 3 : 15);
  uint64_t b = (a * 37 + 11 * vp_choice("s2", vp_tier() ? 15 : 3)) % c;
  pairOf(n, sh, support(n, a), support(n, b), (a + b) % 3, a % 2, 1, b & 1, vp_choice("normalised", 2));
}
