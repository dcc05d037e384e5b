// P13: loading into another manager or a larger vtree, raising, and building a decision node from lower parts.
#include "common.h"
using namespace vph;
// a larger vtree: the tree `sh` over n old variables with `extra` new leaves inserted at chosen places
struct Big {
  std::vector<SddLiteral> all;               // old variables first
  Vtree *root;
};
static Vtree *grow(const std::vector<SddLiteral> &vars, int lo, int hi, int k, std::vector<SddLiteral> *fresh, uint64_t where) {
  Vtree *t;
  if (hi - lo == 1) t = new_leaf_vtree(vars[lo]);
  else {
    t = nullptr;
    for (int m = 1; m < hi - lo && !t; ++m) {
      int a = nShapes[m], b = nShapes[hi - lo - m];
      if (k < a * b) {
        Vtree *l = grow(vars, lo, lo + m, k / b, fresh, where / 3), *r = grow(vars, lo + m, hi, k % b, fresh, where / 7);
        t = new_internal_vtree(l, r);
      } else k -= a * b;
    }
  }
  if (!fresh->empty() && where % 3 != 2) {
    Vtree *f = new_leaf_vtree(fresh->back());
    fresh->pop_back();
    t = where % 3 == 0 ? new_internal_vtree(f, t) : new_internal_vtree(t, f);
  }
  return t;
}
static Big enlarge(const std::vector<SddLiteral> &vars, int sh, int extra, uint64_t where) {
  static const SddLiteral X[] = {11, 4, 70};
  Big b;
  b.all = vars;
  std::vector<SddLiteral> fresh(X, X + extra);
  Vtree *t = grow(vars, 0, vars.size(), sh, &fresh, where);
  while (!fresh.empty()) {
    t = new_internal_vtree(t, new_leaf_vtree(fresh.back()));
    fresh.pop_back();
  }
  for (int i = 0; i < extra; ++i) b.all.push_back(X[i]);
  set_vtree_properties(t);
  b.root = t;
  return b;
}
static void sameWeights(Ref *r, PsddNode *x, const std::vector<SddLiteral> &all, int n) {
  for (Asg a = 0; a < (1u << all.size()); ++a) {
    double w = refWeight(r, a & ((1u << n) - 1)), g = nodeWeight(x, asgMap(all, a));
    if (w == 0) vp_assert(g == 0, "preserved: support");
    else {
      vp_assert(g != 0, "preserved: support");
      vp_log_eq(std::log(g), std::log(w), "preserved: weight of every assignment");
    }
  }
}
static void flags(PsddNode *x, uintmax_t flag) {
  std::set<PsddNode *> ns;
  reach(x, &ns);
  for (PsddNode *y : ns) vp_assert(y->flag_index() == flag, "loaded: requested flag");
}
static void load(int n, int sh, int style, uint64_t s, int extra, uint64_t where, bool sameManager, bool norm, int zg) {
  VT vt = mkVtree(varNames(n, 0), sh);
  Big big = enlarge(vt.vars, sh, extra, where);
  PsddManager *m = mkManager(vt);
  PsddManager *t = sameManager ? m : PsddManager::GetPsddManagerFromVtree(big.root);
  Builder b(m, vt.vars);
  b.style = style;
  b.flag = 3;
  b.pol.normalised = norm;
  b.pol.zeroAt = zg;
  Ref *r = b.build(m->vtree(), table(s, n));
  Snap sn;
  sn.add(r->node);
  static const uintmax_t FLAGS[] = {3, 6, 1};
  uintmax_t flag = FLAGS[where % 3];
  PsddNode *x = t->LoadPsddNode(t->vtree(), r->node, flag);
  vp_assert(sn.same() && sn.clean(), "LoadPsddNode: the source is unchanged");
  vp_assert(conforms(x, t->vtree()), "LoadPsddNode: conforms to the target vtree");
  flags(x, flag);
  sameWeights(r, x, sameManager ? vt.vars : big.all, n);
  if (sameManager && flag == 3 && !gMixed) vp_assert(x == r->node, "LoadPsddNode: into the same manager finds the same node");
  vp_cover(sameManager ? "same" : extra ? "larger" : "copy");
}
extern "C" void same() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : vp_choice("support", 64) * 4 + sh;
  if (k >= supportCount(n)) k = 254;
  int zg = vp_choice("zero", 2) ? (int)(k % 3) : -1;
  int c_flag = vp_choice("flag", 3); int c_manager = vp_choice("manager", 2);
  load(n, sh, k % 3, support(n, k), 0, c_flag, c_manager, k & 1, zg);
}
extern "C" void larger() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 ? vp_choice("support", supportCount(n)) : vp_tier() ? vp_choice("support", 255) : vp_choice("support", 12) * 21 + sh;
  int extra = 1 + vp_choice("extra", 2);
  uint64_t where = vp_choice("where", vp_tier() ? 63 : 21);
  load(n, sh, k % 3, support(n, k), extra, where * (vp_tier() ? 1 : 3) + (vp_tier() ? 0 : k % 3), false, true, -1);
}
// parameters that coincide, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12);
  int extra = vp_choice("extra", 2);
  int c_flag = vp_choice("flag", 3);
  bool own = !extra && vp_choice("manager", 2);
  load(n, sh, k % 3, support(n, k), extra, c_flag + 3 * (k % 5), own, k & 1, -1);
}
// raising a node to an ancestor position
extern "C" void raise() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 ? vp_choice("support", supportCount(n)) : vp_tier() ? vp_choice("support", 255) : vp_choice("support", 20) * 12 + sh;
  int extra = 1 + vp_choice("extra", 2);
  VT vt = mkVtree(varNames(n, 0), sh);
  Vtree *t = shape(vt.vars, 0, n, sh);
  Vtree *mid = t;
  std::vector<SddLiteral> all = vt.vars;
  static const SddLiteral X[] = {11, 4};
  uint64_t side = vp_choice("side", 1u << extra);
  for (int i = 0; i < extra; ++i) {
    Vtree *f = new_leaf_vtree(X[i]);
    t = side >> i & 1 ? new_internal_vtree(f, t) : new_internal_vtree(t, f);
    all.push_back(X[i]);
  }
  (void)mid;
  set_vtree_properties(t);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(t);
  std::unordered_set<SddLiteral> vs(vt.vars.begin(), vt.vars.end());
  Vtree *sub = vtree_util::SubVtreeByVariables(m->vtree(), vs);
  vp_assert(sub != nullptr, "SubVtreeByVariables: finds the part");
  Builder b(m, vt.vars);
  b.style = k % 3;
  b.flag = 1;
  Ref *r = b.build(sub, table(support(n, k), n));
  Snap sn;
  sn.add(r->node);
  int up = vp_choice("target", extra + 1);
  Vtree *target = sub;
  std::vector<SddLiteral> scope = vt.vars;
  for (int i = 0; i < up; ++i) {
    target = sdd_vtree_parent(target);
    scope.push_back(X[i]);
  }
  PsddNode *x = m->NormalizePsddNode(target, r->node, 3);
  vp_assert(sn.same() && sn.clean(), "NormalizePsddNode: the source is unchanged");
  vp_assert(conforms(x, target), "NormalizePsddNode: conforms to the target vtree");
  sameWeights(r, x, scope, n);
  if (up == 0) vp_assert(x == r->node, "NormalizePsddNode: nothing to do at its own position");
  else vp_assert(x->flag_index() == 3, "NormalizePsddNode: requested flag on what it adds");
  vp_cover("raised");
}
// a decision node from parts that sit below its children: parts are literals, tops and small PSDDs at any depth
extern "C" void conform() {
  vp_mode("real", 1);
  int n = 3 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  std::vector<Vtree *> inner;
  for (Vtree *v : vtree_util::SerializeVtree(m->vtree()))
    if (!sdd_vtree_is_leaf(v)) inner.push_back(v);
  Vtree *v = inner[vp_choice("at", inner.size())];
  std::vector<SddLiteral> L = vtree_util::LeftToRightLeafTraverse(sdd_vtree_left(v)), R = vtree_util::LeftToRightLeafTraverse(sdd_vtree_right(v));
  SddLiteral lv = L[vp_choice("left", L.size())], rv = R[vp_choice("right", R.size())];
  double w1 = vp_real("w"), w2 = vp_real("w"), q1 = vp_real("q"), q2 = vp_real("q");
  int tie = vp_choice("tie", 3);
  if (tie) w2 = w1;
  if (tie == 2) q2 = q1 = w1;
  auto par = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  uintmax_t flag = 2;
  PsddNode *p1 = m->GetPsddLiteralNode(lv, flag), *p2 = m->GetPsddLiteralNode(-lv, flag);
  int kind = vp_choice("kind", 3);
  PsddNode *s1 = m->GetPsddTopNode(rv, flag, par(q1), par(q2));
  PsddNode *s2 = kind == 0 ? (PsddNode *)m->GetPsddLiteralNode(-rv, flag) : kind == 1 ? s1 : (PsddNode *)m->GetPsddLiteralNode(rv, flag);
  bool swap = vp_choice("swap", 2);
  PsddNode *x = swap ? m->GetConformedPsddDecisionNode({p2, p1}, {s2, s1}, {par(w2), par(w1)}, flag)
                     : m->GetConformedPsddDecisionNode({p1, p2}, {s1, s2}, {par(w1), par(w2)}, flag);
  vp_assert(conforms(x, v), "GetConformedPsddDecisionNode: sits at the lowest position covering its parts");
  std::vector<SddLiteral> sc = L;
  sc.insert(sc.end(), R.begin(), R.end());
  for (Asg a = 0; a < (1u << sc.size()); ++a) {
    auto am = asgMap(sc, a);
    double top = am[rv] ? q1 : q2;
    bool zero = !am[lv] && ((kind == 0 && am[rv]) || (kind == 2 && !am[rv]));
    double g = nodeWeight(x, am);
    if (zero) {
      vp_assert(g == 0, "preserved: support");
      continue;
    }
    double w = am[lv] ? w1 * top : kind == 1 ? w2 * top : w2;
    vp_assert(g != 0, "preserved: support");
    vp_log_eq(std::log(g), std::log(w), "preserved: weight of every assignment");
  }
  flags(x, flag);
  vp_cover("conformed");
}
// the parts sit at different depths: one side raised, the other left where it was
extern "C" void depths() {
  vp_mode("real", 1);
  int n = 3 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  std::vector<Vtree *> inner;
  for (Vtree *v : vtree_util::SerializeVtree(m->vtree()))
    if (!sdd_vtree_is_leaf(v)) inner.push_back(v);
  Vtree *v = inner[vp_choice("at", inner.size())];
  std::vector<SddLiteral> L = vtree_util::LeftToRightLeafTraverse(sdd_vtree_left(v)), R = vtree_util::LeftToRightLeafTraverse(sdd_vtree_right(v));
  SddLiteral lv = L[vp_choice("left", L.size())], rv = R[vp_choice("right", R.size())];
  double w1 = vp_real("w"), w2 = vp_real("w"), q1 = vp_real("q"), q2 = vp_real("q");
  auto par = [](double x) { return PsddParameter::CreateFromDecimal(x); };
  uintmax_t flag = 2;
  // some position between the leaf of a variable and the child of v above it
  auto lift = [&](PsddNode *x, Vtree *top, const char *what) -> PsddNode * {
    int depth = 0;
    for (Vtree *p = x->vtree_node(); p != top; p = sdd_vtree_parent(p)) ++depth;
    int up = vp_choice(what, depth + 1);
    Vtree *p = x->vtree_node();
    while (up--) p = sdd_vtree_parent(p);
    return m->NormalizePsddNode(p, x, flag);
  };
  PsddNode *p1 = lift(m->GetPsddLiteralNode(lv, flag), sdd_vtree_left(v), "up");
  PsddNode *p2 = lift(m->GetPsddLiteralNode(-lv, flag), sdd_vtree_left(v), "up");
  PsddNode *s1 = lift(m->GetPsddTopNode(rv, flag, par(q1), par(q2)), sdd_vtree_right(v), "up");
  PsddNode *s2 = lift(m->GetPsddLiteralNode(-rv, flag), sdd_vtree_right(v), "up");
  PsddNode *x = m->GetConformedPsddDecisionNode({p1, p2}, {s1, s2}, {par(w1), par(w2)}, flag);
  vp_assert(conforms(x, v), "GetConformedPsddDecisionNode: sits at the lowest position covering its parts");
  std::vector<SddLiteral> sc = L;
  sc.insert(sc.end(), R.begin(), R.end());
  for (Asg a = 0; a < (1u << sc.size()); ++a) {
    auto am = asgMap(sc, a);
    double g = nodeWeight(x, am);
    if (!am[lv] && am[rv]) {
      vp_assert(g == 0, "preserved: support");
      continue;
    }
    vp_assert(g != 0, "preserved: support");
    if (g == 0) continue;
    vp_log_eq(std::log(g), std::log(am[lv] ? w1 * (am[rv] ? q1 : q2) : w2), "preserved: weight of every assignment");
  }
  flags(x, flag);
  vp_cover("depths");
}
