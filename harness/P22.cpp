// P22: node listings contain exactly the reachable nodes, parents first.
#include "common.h"
using namespace vph;
static void listing(const std::vector<PsddNode *> &roots, bool single) {
  std::vector<PsddNode *> got = single ? psdd_node_util::SerializePsddNodes(roots[0]) : psdd_node_util::SerializePsddNodes(roots);
  std::set<PsddNode *> want;
  for (PsddNode *r : roots) reach(r, &want);
  std::map<PsddNode *, size_t> at;
  for (size_t i = 0; i < got.size(); ++i) {
    vp_assert(at.emplace(got[i], i).second, "SerializePsddNodes: every node once");
    vp_assert(want.count(got[i]), "SerializePsddNodes: nothing but reachable nodes");
  }
  vp_assert(got.size() == want.size(), "SerializePsddNodes: every reachable node");
  if (roots.size() == 1) vp_assert(got[0] == roots[0], "SerializePsddNodes: a single root comes first");
  for (PsddNode *x : got)
    if (PsddDecisionNode *d = x->psdd_decision_node())
      for (size_t i = 0; i < d->primes().size(); ++i)
        vp_assert(at[d->primes()[i]] > at[x] && at[d->subs()[i]] > at[x], "SerializePsddNodes: parents before children");
  auto cov = psdd_node_util::GetCoveredPsddNodes(roots);
  vp_assert(cov.size() == want.size(), "GetCoveredPsddNodes: exactly the reachable nodes");
  for (PsddNode *x : want) {
    auto it = cov.find(x->node_index());
    vp_assert(it != cov.end() && it->second == x, "GetCoveredPsddNodes: under their identifiers");
  }
  if (roots.size() == 1) {
    uintmax_t size = 0;
    for (PsddNode *x : want) {
      if (x->psdd_top_node()) size += 1;
      if (x->psdd_decision_node()) size += x->psdd_decision_node()->primes().size() - 1;
    }
    vp_assert(psdd_node_util::GetPsddSize(roots[0]) == size, "GetPsddSize: number of free parameters");
    vp_cover("single");
  }
  if (roots.size() > 1) vp_cover("several");
}
static Ref *make(PsddManager *m, const VT &vt, int style, uint64_t s, uintmax_t flag, const char *name) {
  Builder b(m, vt.vars);
  b.style = style;
  b.flag = flag;
  b.pol.unit = name == nullptr;
  if (name) b.pol.name = name;
  return b.build(m->vtree(), table(s, vt.vars.size()));
}
extern "C" void single() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 4), sh = vp_choice("shape", nShapes[n]);
  // the support is a symbolic truth table for n<=3: the solver decides which structures exist
  uint64_t sup = n <= 3 ? vp_bits("support", 1u << n) : support(n, vp_choice("support", supportCount(n)));
  vp_assume(sup != 0);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  int style = vp_choice("style", 3);
  bool unit = vp_choice("unit", 2);
  Ref *r = make(m, vt, style, sup, 0, unit ? nullptr : "w");
  Snap sn;
  sn.add(r->node);
  listing({r->node}, true);
  listing({r->node}, false);
  vp_assert(sn.same() && sn.clean(), "listing leaves the nodes alone");
}
// roots from two PSDDs and from any level of them, in any order, with repetitions
extern "C" void several() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  static const uint64_t F[] = {0xffff, 0x6996, 0xcafe, 0x8421, 0xe817, 0x1248};
  uint64_t mask = (1ull << (1u << n)) - 1;
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  int k = vp_choice("support", 6), j = (k + 1 + (vp_tier() ? vp_choice("support2", 2) : n % 2)) % 6;
  bool unit = vp_choice("unit", 2);
  uint64_t s1 = F[k] & mask, s2 = F[j] & mask;
  if (!s1) s1 = 1;
  if (!s2) s2 = 2;
  Ref *r1 = make(m, vt, unit ? 0 : 1, s1, 0, unit ? nullptr : "w");
  Ref *r2 = make(m, vt, 0, s2, 0, unit ? nullptr : "v");
  std::vector<PsddNode *> pool{r1->node, r2->node};
  std::set<PsddNode *> below;
  for (Ref *r : {r1, r2})
    for (size_t i = 0; i < r->p.size() && i < 2; ++i) {
      pool.push_back(r->p[i]->node);
      pool.push_back(r->s[i]->node);
      if (!r->s[i]->p.empty()) pool.push_back(r->s[i]->s[0]->node);
      if (!r->p[i]->p.empty()) pool.push_back(r->p[i]->p[0]->node);
    }
  std::vector<PsddNode *> roots;
  int cnt = 2 + (vp_tier() ? vp_choice("third", 2) : 0);
  for (int i = 0; i < cnt; ++i) roots.push_back(pool[vp_choice("root", pool.size())]);
  listing(roots, false);
}
// parameters that coincide, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = vp_choice("tie", 4), gMixed = true;
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 5 * vp_choice("support", 48);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Ref *r = make(m, vt, k % 3, support(n, k), vp_choice("flag", 2), "w");
  listing({r->node}, true);
  listing({r->node}, false);
  Ref *o = make(m, vt, (k + 1) % 3, support(n, (k * 7 + 2) % supportCount(n)), 1, "w");
  listing({o->node, r->node}, false);
}
