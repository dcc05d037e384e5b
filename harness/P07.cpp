// P07: the exported SDD has exactly the support of the PSDD as its models.
#include "common.h"
using namespace vph;
static void check(int n, int sh, int style, uint64_t s, int names, int ssh, int perm) {
  VT vt = mkVtree(varNames(n, names), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = style;
  Ref *r = b.build(m->vtree(), table(s, n));
  // an SDD manager over any vtree shape and any order of the variables 1..n
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (int k = 0; k < perm; ++k) std::next_permutation(p.begin(), p.end());
  std::vector<SddLiteral> leaves, img(n);
  for (int i = 0; i < n; ++i) leaves.push_back(n - i);
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (int i = 0; i < n; ++i) img[i] = p[i] + 1, map[vt.vars[i]] = img[i];
  map[77] = 1;                               // variables the PSDD does not mention may be mapped too
  VT sv = mkVtree(leaves, ssh);
  SddManager *sm = sdd_manager_new(sv.root);
  sdd_manager_auto_gc_and_minimize_off(sm);
  Snap sn;
  sn.add(r->node);
  std::vector<PsddNode *> list = psdd_node_util::SerializePsddNodes(r->node);
  SddNode *x = psdd_node_util::ConvertPsddNodeToSddNode(list, map, sm);
  vp_assert(sn.same() && sn.clean(), "export: the PSDD is unchanged");
  uint64_t w = vp_bits("world", n);
  SymSup q(img, w);
  vp_assert(x != nullptr && q.sdd(x) == ((s >> w) & 1), "export: models are exactly the support");
  vp_assert(psdd_node_util::ConvertPsddNodeToSddNode(list, map, sm) == x, "export: repeated export gives the same constraint");
  SymSup z(vt.vars, w);
  vp_assert(z.psdd(r->node) == ((s >> w) & 1), "export: the PSDD is unchanged");
  vp_assert(sn.same() && sn.clean(), "export: the PSDD is unchanged");
  vp_cover("exported");
}
extern "C" void supports() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", supportCount(n));
  int fact[] = {1, 1, 2, 6};
  int ssh = vp_choice("sddshape", nShapes[n]), pm = vp_choice("perm", fact[n]);
  check(n, sh, k % 3, support(n, k), k & 1 ? 2 : 0, ssh, pm);
}
extern "C" void four() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 5);
  uint64_t k = vp_choice("support", 32);
  int ssh = vp_tier() ? vp_choice("sddshape", 5) : (k + sh) % 5, pm = vp_tier() ? vp_choice("perm", 24) : (5 * k + sh) % 24;
  check(4, sh, k % 3, support(4, k), k & 1 ? 2 : 0, ssh, pm);
}
// a node inside a PSDD, and nodes shared by two PSDDs
extern "C" void below() {
  vp_mode("real", 1);
  int n = 3, sh = vp_choice("shape", 2);
  uint64_t k = vp_choice("support", 255), s = k + 1;
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = k % 3;
  Ref *r = b.build(m->vtree(), table(s, n));
  VT sv = mkVtree({2, 3, 1}, k & 1);
  SddManager *sm = sdd_manager_new(sv.root);
  sdd_manager_auto_gc_and_minimize_off(sm);
  std::unordered_map<SddLiteral, SddLiteral> map;
  std::vector<SddLiteral> img{3, 1, 2};
  for (int i = 0; i < n; ++i) map[vt.vars[i]] = img[i];
  Snap sn;
  sn.add(r->node);
  uint64_t w = vp_bits("world", n);
  for (size_t i = 0; i < r->p.size(); ++i)
    for (Ref *c : {r->p[i], r->s[i]}) {
      SddNode *x = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(c->node), map, sm);
      SymSup q(img, w), z(vt.vars, w);
      vp_assert(q.sdd(x) == z.psdd(c->node), "export: models are exactly the support");
      vp_assert(sn.same() && sn.clean(), "export: the PSDD is unchanged");
    }
  vp_cover("below");
}
// parameters that coincide, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 7 * vp_choice("support", 32);
  check(n, sh, k % 3, support(n, k), k & 1, vp_choice("sddshape", nShapes[n]), k % 2);
}
