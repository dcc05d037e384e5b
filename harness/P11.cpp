// P11: learned parameters are the smoothed relative frequencies.
#include "common.h"
using namespace vph;
typedef std::unordered_map<int32_t, BatchedPsddValue> Data;
struct Counts { std::map<Ref *, std::vector<uint64_t>> c; };
static void countOne(Ref *r, Asg a, Counts *c) {
  if (r->kind == 1) return;
  auto &v = c->c[r];
  if (r->kind == 3) {
    v.resize(2);
    ++v[(a >> r->var & 1) ? 0 : 1];
    return;
  }
  v.resize(r->p.size());
  for (size_t i = 0; i < r->p.size(); ++i)
    if (refSupport(r->p[i], a) && refSupport(r->s[i], a)) {
      ++v[i];
      countOne(r->p[i], a, c);
      countOne(r->s[i], a, c);
      return;
    }
}
// compare the learned PSDD with the reference, node by node
static void compare(Ref *r, PsddNode *x, Counts &c, double alpha, uintmax_t flag, std::set<std::pair<Ref *, PsddNode *>> *seen) {
  if (!seen->insert({r, x}).second) return;
  vp_assert(x->flag_index() == flag, "LearnPsddParameters: requested flag");
  vp_assert(x->vtree_node() == r->node->vtree_node() && x->node_type() == r->node->node_type(), "LearnPsddParameters: same structure");
  if (r->kind == 1) {
    vp_assert(x->psdd_literal_node()->literal() == r->node->psdd_literal_node()->literal(), "LearnPsddParameters: same structure");
    return;
  }
  std::vector<uint64_t> v = c.c[r];
  size_t k = r->kind == 3 ? 2 : r->p.size();
  v.resize(k);
  std::vector<double> w(k);
  double total = 0;
  for (size_t i = 0; i < k; ++i) {
    w[i] = alpha == 0 ? (double)v[i] : (double)v[i] + alpha;
    total += w[i];
  }
  if (r->kind == 3) {
    PsddTopNode *t = x->psdd_top_node();
    vp_assert(t->variable_index() == r->node->psdd_top_node()->variable_index(), "LearnPsddParameters: same structure");
    if (total != 0) {
      vp_log_eq(t->true_parameter().parameter(), lg(w[0] / total), "LearnPsddParameters: smoothed frequency at a top node");
      vp_log_eq(t->false_parameter().parameter(), lg(w[1] / total), "LearnPsddParameters: smoothed frequency at a top node");
    }
    return;
  }
  PsddDecisionNode *d = x->psdd_decision_node();
  vp_assert(d->primes().size() == k, "LearnPsddParameters: same structure");
  // elements are matched by the support of their primes
  auto sig = [&](PsddNode *p, int n, const std::vector<SddLiteral> &vars) {
    uint64_t s = 0;
    for (Asg a = 0; a < (1u << n); ++a)
      if (nodeSupport(p, asgMap(vars, a))) s |= 1ull << a;
    return s;
  };
  extern std::vector<SddLiteral> gVars;
  int n = gVars.size();
  std::vector<char> used(k, 0);
  for (size_t i = 0; i < k; ++i) {
    uint64_t want = 0;
    for (Asg a = 0; a < (1u << n); ++a)
      if (refSupport(r->p[i], a)) want |= 1ull << a;
    size_t j = 0;
    while (j < k && (used[j] || sig(d->primes()[j], n, gVars) != want)) ++j;
    vp_assert(j < k, "LearnPsddParameters: same structure");
    used[j] = 1;
    if (total != 0) vp_log_eq(d->parameters()[j].parameter(), lg(w[i] / total), "LearnPsddParameters: smoothed frequency at a decision node");
    compare(r->p[i], d->primes()[j], c, alpha, flag, seen);
    compare(r->s[i], d->subs()[j], c, alpha, flag, seen);
  }
}
std::vector<SddLiteral> gVars;
static Data mkData(const VT &vt, const std::vector<Asg> &ex) {
  Data d;
  for (size_t i = 0; i < vt.vars.size(); ++i) {
    BatchedPsddValue v(ex.size());
    for (size_t j = 0; j < ex.size(); ++j) v[j] = ex[j] >> i & 1;
    d[vt.vars[i]] = v;
  }
  d[40] = BatchedPsddValue(ex.size(), true);  // a variable the PSDD does not mention
  return d;
}
static PsddParameter par(double a) { return PsddParameter::CreateFromDecimal(a); }
static void learnAndCheck(const VT &vt, PsddManager *m, Ref *r, const std::vector<Asg> &ex, double alpha, uintmax_t flag, PsddNode **out = nullptr) {
  gVars = vt.vars;
  Snap sn;
  sn.add(r->node);
  PsddNode *x = m->LearnPsddParameters(r->node, mkData(vt, ex), ex.size(), par(alpha), flag);
  vp_assert(sn.same() && sn.clean(), "LearnPsddParameters: leaves no trace on the structure");
  Counts c;
  for (Asg a : ex)
    if (refSupport(r, a)) countOne(r, a, &c);
  std::set<std::pair<Ref *, PsddNode *>> seen;
  compare(r, x, c, alpha, flag, &seen);
  vp_cover("learned");
  if (out) *out = x;
}
static Ref *structure(PsddManager *m, const VT &vt, int style, uint64_t s, bool unit) {
  Builder b(m, vt.vars);
  b.style = style;
  b.pol.unit = unit;
  return b.build(m->vtree(), table(s, vt.vars.size()));
}
// two symbolic examples over every structure; alpha symbolic or zero
extern "C" void supports() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : vp_choice("support", 16) * 16 + 11 * sh;
  if (k >= supportCount(n)) k = 254;
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Ref *r = structure(m, vt, k % 3, support(n, k), k & 1);
  int ne = vp_tier() ? vp_choice("examples", 4) : 2 - (k % 5 == 0);
  std::vector<Asg> ex;
  for (int i = 0; i < ne; ++i) ex.push_back(vp_bits("example", n));
  double alpha = vp_choice("smooth", 2) ? vp_real("alpha") : 0;
  learnAndCheck(vt, m, r, ex, alpha, k & 2);
}
// learning twice, and other data in between, gives the result of a fresh run
extern "C" void again() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  static const uint64_t F[] = {0xff, 0x96, 0x7e, 0x81, 0xe9};
  uint64_t s = F[vp_choice("support", 5)] & ((1ull << (1u << n)) - 1);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Ref *r = structure(m, vt, 0, s, true);
  double alpha = vp_real("alpha");
  std::vector<Asg> e1{(Asg)vp_choice("e1", 1u << n), (Asg)1}, e2{(Asg)vp_choice("e2", 1u << n), (Asg)2, (Asg)3};
  PsddNode *a, *b, *c;
  learnAndCheck(vt, m, r, e1, alpha, 4, &a);
  learnAndCheck(vt, m, r, e2, alpha, 4, &b);
  learnAndCheck(vt, m, r, e1, alpha, 4, &c);
  vp_assert(a == c, "LearnPsddParameters: repeating it gives the same PSDD");
  // with no data the parameters are uniform; with and without smoothing the learned PSDD can be learned from
  learnAndCheck(vt, m, r, {}, alpha, 4);
  vp_cover("again");
}
// data sets that span several machine words
extern "C" void wide() {
  vp_mode("real", 1);
  static const int S[] = {31, 32, 33, 63, 64, 65, 70, 129};
  int ne = S[vp_choice("examples", 8)], sh = vp_choice("shape", 2);
  static const uint64_t F[] = {0xff, 0x96, 0x7e};
  VT vt = mkVtree(varNames(3, 0), sh);
  PsddManager *m = mkManager(vt);
  Ref *r = structure(m, vt, 0, F[vp_choice("support", 3)], false);
  std::vector<Asg> ex;
  for (int i = 0; i < ne; ++i) ex.push_back((i * 5 + i / 3) & 7);
  ex[ne - 1] = vp_bits("last", 3);
  ex[ne / 2] = vp_bits("mid", 3);
  learnAndCheck(vt, m, r, ex, vp_real("alpha"), 1);
}
