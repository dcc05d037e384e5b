// P24: direct sampling produces each assignment on a set of draws whose measure is its probability.
#include "common.h"
using namespace vph;
struct Gen : public RandomDoubleFromUniformGenerator {
  std::vector<double> u;
  double lo, hi;
  Gen(double a, double b) : RandomDoubleFromUniformGenerator(a, b, 0), lo(a), hi(b) {}
  double generate() override {
    double x = vp_real("u");
    vp_assume(x < 1);
    u.push_back(x);
    return lo == 0 && hi == 1 ? x : lo + x * (hi - lo);
  }
};
// Walk the PSDD along the drawn assignment: the chosen element of every visited node is forced by determinism. The draws
// that lead there must be, node by node, an interval whose length is the parameter chosen at that node, and the intervals
// of one node must not overlap: both follow if each draw lies in [c, c+p) where c is the sum over the elements before.
static void walk(PsddNode *n, const std::map<SddLiteral, bool> &a, const std::vector<double> &u, size_t *k, double *prob) {
  if (n->psdd_literal_node()) return;
  vp_assert(*k < u.size(), "DirectSample: one draw for every node with a choice");
  double x = u[(*k)++];
  if (PsddTopNode *t = n->psdd_top_node()) {
    double p = std::exp(t->true_parameter().parameter());
    bool v = a.at(t->variable_index());
    if (v) vp_assert(x <= p, "DirectSample: true exactly below the true parameter");
    else vp_assert(x >= p, "DirectSample: true exactly below the true parameter");
    *prob *= v ? p : std::exp(t->false_parameter().parameter());
    return;
  }
  PsddDecisionNode *d = n->psdd_decision_node();
  double c = 0;
  for (size_t i = 0; i < d->primes().size(); ++i) {
    double p = std::exp(d->parameters()[i].parameter());
    if (nodeSupport(d->primes()[i], a) && nodeSupport(d->subs()[i], a)) {
      vp_assert(x >= c && x <= c + p, "DirectSample: element chosen on an interval as long as its parameter");
      *prob *= p;
      walk(d->primes()[i], a, u, k, prob);
      walk(d->subs()[i], a, u, k, prob);
      return;
    }
    c += p;
  }
  vp_assert(false, "DirectSample: the drawn assignment is in the support");
}
static void check(int n, int sh, int style, uint64_t s, int names, int zg, int zw, double lo, double hi) {
  VT vt = mkVtree(varNames(n, names), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = style;
  b.pol.zeroAt = zg, b.pol.zeroWhich = zw;
  Ref *r = b.build(m->vtree(), table(s, n));
  Snap sn;
  sn.add(r->node);
  Bits inst;
  bool out = vp_choice("outside", 2);
  inst[4] = out, inst[40] = out, inst[500] = out;
  Gen g(lo, hi);
  r->node->DirectSample(&inst, &g);
  vp_assert(inst[4] == out && inst[40] == out && inst[500] == out, "DirectSample: other variables untouched");
  Asg a = 0;
  for (int i = 0; i < n; ++i)
    if (inst[vt.vars[i]]) a |= 1u << i;
  Bits rest = inst;
  for (int i = 0; i < n; ++i) rest.reset(vt.vars[i]);
  rest.reset(4), rest.reset(40), rest.reset(500);
  vp_assert(rest.none(), "DirectSample: other variables untouched");
  vp_assert(refWeight(r, a) != 0, "DirectSample: the drawn assignment has positive probability");
  size_t k = 0;
  double prob = 1;
  walk(r->node, asgMap(vt.vars, a), g.u, &k, &prob);
  vp_assert(k == g.u.size(), "DirectSample: one draw for every node with a choice");
  vp_log_eq(std::log(prob), std::log(refWeight(r, a)), "DirectSample: measure of the draws is the probability");
  vp_assert(sn.same() && sn.clean(), "DirectSample: the PSDD is unchanged");
  vp_cover("sample");
}
extern "C" void supports() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : vp_choice("support", 85) * 3 + sh;
  static const double LO[] = {0, 3, 0, -2}, HI[] = {1, 7, 4, 3};
  int range = (k + sh) % 4;
  check(n, sh, k % 3, support(n, k), 0, -1, 0, LO[range], HI[range]);
}
extern "C" void zeros() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12);
  int c_zgroup = vp_choice("zgroup", 3); int c_zwhich = vp_choice("zwhich", 2);
  check(n, sh, k % 3, support(n, k), 0, c_zgroup, c_zwhich, 0, 1);
}
// draws within the comparison resolution of PsddParameter (1e-7) of one
extern "C" void resolution() {
  vp_mode("resolution", 1);
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", supportCount(n));
  int zg = (int)vp_choice("zgroup", 3) - 1, zw = zg < 0 ? 0 : vp_choice("zwhich", 2);
  check(n, sh, k % 3, support(n, k), 0, zg, zw, 0, 1);
}
// the uniform source itself: symbolic range, every draw inside it, the same stream for the same seed
extern "C" void source() {
  vp_mode("real", 1);
  double lo = vp_real("lo"), width = vp_real("width"), hi = lo + width;
  uint seed = vp_choice("seed", vp_tier() ? 64 : 12);
  seed = seed < 6 ? seed : seed * 2654435761u;
  RandomDoubleFromUniformGenerator g(lo, hi, seed), h(lo, hi, seed);
  vp_assert(g.min() == lo && g.max() == hi, "uniform source: reports its range");
  bool moved = false;
  double first = 0;
  for (int i = 0; i < 4; ++i) {
    double x = g.generate(), y = h.generate();
    vp_assert(x >= lo && x <= hi, "uniform source: draws stay in the range");
    vp_assert(x == y, "uniform source: the seed determines the stream");
    if (i && x != first) moved = true;
    first = x;
  }
  vp_assert(moved, "uniform source: draws vary");
  vp_cover("source");
}
// parameters that coincide, over every range of the source
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12);
  static const double LO[] = {0, 3, 0, -2}, HI[] = {1, 7, 4, 3};
  int range = n < 3 ? vp_choice("range", 4) : (k + gTie) % 4;
  check(n, sh, k % 3, support(n, k), 0, -1, 0, LO[range], HI[range]);
}
