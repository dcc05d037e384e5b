// P29: a manager is self-contained: what it holds refers to its own vtree and nodes, and outlives everything it was made from.
#include "common.h"
#include <fstream>
#include <psdd/cnf.h>
#include <psdd/random_double_generator.h>
using namespace vph;
struct Own {                                 // the vtree nodes of a manager
  std::set<Vtree *> in;
  explicit Own(Vtree *root) {
    for (Vtree *v : vtree_util::SerializeVtree(root)) in.insert(v);
  }
};
static void ownTree(Vtree *v, Vtree *parent, SddLiteral *pos) {
  vp_assert(sdd_vtree_parent(v) == parent, "manager: the vtree is a tree of its own");
  vp_assert(sdd_vtree_data(v) == nullptr, "manager: nothing attached to the vtree");
  if (sdd_vtree_is_leaf(v)) {
    vp_assert(sdd_vtree_position(v) == (*pos)++, "manager: vtree positions are in order");
    return;
  }
  ownTree(sdd_vtree_left(v), v, pos);
  vp_assert(sdd_vtree_position(v) == (*pos)++, "manager: vtree positions are in order");
  ownTree(sdd_vtree_right(v), v, pos);
}
static void sameShape(Vtree *a, Vtree *b, const std::unordered_map<uint32_t, uint32_t> *map) {
  vp_assert(a != b, "manager: the vtree is a copy");
  vp_assert(sdd_vtree_is_leaf(a) == sdd_vtree_is_leaf(b), "manager: the vtree has the shape of the given one");
  vp_assert(sdd_vtree_data(a) == nullptr, "manager: nothing attached to the given vtree");
  if (sdd_vtree_is_leaf(a)) {
    SddLiteral v = sdd_vtree_var(a);
    if (map) v = map->at(v);
    vp_assert(sdd_vtree_var(b) == v, "manager: the vtree has the given variables");
    return;
  }
  sameShape(sdd_vtree_left(a), sdd_vtree_left(b), map);
  sameShape(sdd_vtree_right(a), sdd_vtree_right(b), map);
}
// every node reachable from the roots refers to the vtree of the manager
static void within(PsddManager *m, const std::vector<PsddNode *> &roots) {
  Own own(m->vtree());
  std::set<PsddNode *> ns;
  for (PsddNode *r : roots) reach(r, &ns);
  std::set<uintmax_t> ids;
  for (PsddNode *x : ns) {
    vp_assert(own.in.count(x->vtree_node()), "manager: nodes refer to its own vtree");
    vp_assert(ids.insert(x->node_index()).second, "manager: identifiers are unique");
  }
  for (PsddNode *r : roots) vp_assert(conforms(r, r->vtree_node()), "manager: nodes conform to its vtree");
}
static void apart(const std::vector<PsddNode *> &a, const std::vector<PsddNode *> &b) {
  std::set<PsddNode *> x, y;
  for (PsddNode *r : a) reach(r, &x);
  for (PsddNode *r : b) reach(r, &y);
  for (PsddNode *r : x) vp_assert(!y.count(r), "manager: shares no node with another manager");
}
static void weights(Ref *r, PsddNode *x, const std::vector<SddLiteral> &vars) {
  for (Asg a = 0; a < (1u << vars.size()); ++a) {
    double w = refWeight(r, a), g = nodeWeight(x, asgMap(vars, a));
    if (w == 0 || g == 0) vp_assert(w == g, "manager: support kept");
    else vp_log_eq(std::log(g), std::log(w), "manager: weights kept");
  }
}
static void evaluates(Ref *r, PsddNode *x, const std::vector<SddLiteral> &vars) {
  Bits mask, inst;
  Asg a = 0;
  for (Asg c = 0; c < (1u << vars.size()); ++c)
    if (refWeight(r, c) != 0) a = c;
  for (SddLiteral v : vars) mask[v] = true;
  setBits(&inst, vars, a);
  vp_log_eq(psdd_node_util::Evaluate(mask, inst, x).parameter(), std::log(refWeight(r, a)), "manager: answers as before");
}
static void litter() {                        // reuse the memory of what was freed
  for (int i = 0; i < 12; ++i) {
    Vtree *v = new_internal_vtree(new_leaf_vtree(90 + i), new_leaf_vtree(50 + i));
    set_vtree_properties(v);
  }
}
// ---------------------------------------------------------------- the vtree handed to a manager
static void fromVtree(int n, int sh, uint64_t s, int way, int style) {
  static const SddLiteral SV[] = {2, 4, 1, 3, 5};
  std::vector<SddLiteral> sv;
  for (SddLiteral x : SV)
    if (x <= n) sv.push_back(x);
  VT vt = mkVtree(way ? sv : varNames(n, style % 3), sh);
  std::vector<SddLiteral> names = way ? varNames(n, way == 1 ? 2 : 0) : vt.vars;
  std::unordered_map<uint32_t, uint32_t> map;
  PsddManager *m;
  if (way == 0) m = PsddManager::GetPsddManagerFromVtree(vt.root);
  else {
    if (way == 3) {                          // a permutation of the same numbers
      names = sv;
      std::rotate(names.begin(), names.begin() + n / 2, names.end());
    }
    for (int i = 0; i < n; ++i) map[sv[i]] = names[i];
    if (style & 1) map[77] = 78;             // the mapping may say more than is needed
    m = PsddManager::GetPsddManagerFromSddVtree(vt.root, map);
  }
  sameShape(vt.root, m->vtree(), way ? &map : nullptr);
  SddLiteral pos = 0;
  ownTree(m->vtree(), nullptr, &pos);
  Own mine(m->vtree()), theirs(vt.root);
  vp_assert((int)mine.in.size() == 2 * n - 1, "manager: the vtree has every node once");
  for (Vtree *v : mine.in) vp_assert(!theirs.in.count(v), "manager: the vtree is a copy");
  // building before and after the caller's vtree is gone gives the same
  Builder b(m, names);
  b.style = style;
  Ref *r = b.build(m->vtree(), table(s, n));
  PsddNode *one = m->GetTrueNode(m->vtree(), 1);
  Snap sn;
  sn.add(r->node);
  sn.add(one);
  within(m, {r->node, one});
  sdd_vtree_free(vt.root);
  litter();
  vp_assert(sn.same() && sn.clean(), "manager: unaffected by what happens to the given vtree");
  within(m, {r->node, one});
  vp_assert(m->GetTrueNode(m->vtree(), 1) == one, "manager: finds its nodes again");
  vp_assert(m->LoadPsddNode(m->vtree(), r->node, 0) == r->node, "manager: finds its nodes again");
  pos = 0;
  ownTree(m->vtree(), nullptr, &pos);
  weights(r, r->node, names);
  evaluates(r, r->node, names);
  vp_cover(way ? "from an SDD vtree" : "from a vtree");
}
extern "C" void vtree() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", vp_tier() ? 5 : 4), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 ? vp_choice("support", supportCount(n)) : n == 3 ? vp_choice("support", 20) * 12 + sh : vp_choice("support", vp_tier() ? 16 : 4) * 2 + sh % 2;
  int way = vp_choice("way", 4);
  fromVtree(n, sh, n == 5 ? 0x96696996 ^ (k * 0x10305) : support(n, k), way, (k + sh) % 3);
}
// ---------------------------------------------------------------- loading from another manager
extern "C" void loaded() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : vp_choice("support", 32) * 8 + sh;
  if (k >= supportCount(n)) k = 254;
  int fate = vp_choice("fate", 4), crowd = vp_choice("crowd", 2);
  VT vt = mkVtree(varNames(n, k % 3), sh);
  PsddManager *a = mkManager(vt), *b = mkManager(vt);
  PsddNode *mine = nullptr;
  if (crowd) {                               // the target already holds nodes of its own, with the same identifiers
    Builder o(b, vt.vars);
    o.flag = 2;
    o.pol.unit = true;
    mine = o.build(b->vtree(), table(support(n, supportCount(n) - 1 - k), n))->node;
  }
  Builder bu(a, vt.vars);
  bu.style = k % 3;
  bu.flag = 2;
  Ref *r = bu.build(a->vtree(), table(support(n, k), n));
  Snap src;
  src.add(r->node);
  PsddNode *x = b->LoadPsddNode(b->vtree(), r->node, 2);
  vp_assert(src.same() && src.clean(), "manager: the source of a load is unchanged");
  apart({r->node}, mine ? std::vector<PsddNode *>{x, mine} : std::vector<PsddNode *>{x});
  within(b, mine ? std::vector<PsddNode *>{x, mine} : std::vector<PsddNode *>{x});
  within(a, {r->node});
  Snap sn;
  sn.add(x);
  if (mine) sn.add(mine);
  if (fate == 0) a->DeleteUnusedPsddNodes({});
  if (fate == 1 || fate == 2) delete a;
  if (fate == 2) sdd_vtree_free(vt.root);
  litter();
  if (fate == 3) {                           // the target goes, the source stays
    delete b;
    litter();
    vp_assert(src.same() && src.clean(), "manager: unaffected by the end of another");
    weights(r, r->node, vt.vars);
    evaluates(r, r->node, vt.vars);
    vp_assert(a->LoadPsddNode(a->vtree(), r->node, 2) == r->node, "manager: finds its nodes again");
    vp_cover("target gone");
    return;
  }
  vp_assert(sn.same() && sn.clean(), "manager: unaffected by the end of another");
  weights(r, x, vt.vars);
  evaluates(r, x, vt.vars);
  vp_assert(b->LoadPsddNode(b->vtree(), x, 2) == x, "manager: finds its nodes again");
  auto pr = b->Multiply(x, b->GetTrueNode(b->vtree(), 5), 5);
  vp_assert(pr.first != nullptr, "manager: works as before");
  within(b, {x, pr.first});
  vp_log_eq(pr.second.parameter(), 0, "manager: works as before");
  weights(r, pr.first, vt.vars);
  vp_cover(fate ? "source gone" : "source collected");
}
// ---------------------------------------------------------------- constraints from an SDD manager
extern "C" void imported() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 ? vp_choice("support", supportCount(n)) : vp_choice("support", vp_tier() ? 255 : 60) * (vp_tier() ? 1 : 4) + (vp_tier() ? 0 : sh);
  uint64_t f = support(n, k);
  int way = vp_choice("way", 4);
  std::vector<SddLiteral> sv;
  for (SddLiteral x : {2, 3, 1})
    if (x <= n) sv.push_back(x);
  VT vt = mkVtree(sv, sh);
  SddManager *sm = sdd_manager_new(vt.root);
  sdd_manager_auto_gc_and_minimize_off(sm);
  Vtree *svt = sdd_manager_vtree(sm);
  std::vector<SddLiteral> pv = varNames(n, way == 0 ? 2 : 0);
  if (way == 2 || way == 3) pv = sv;
  std::unordered_map<uint32_t, uint32_t> map;
  for (int i = 0; i < n; ++i) map[sv[i]] = pv[i];
  PsddManager *m = way == 2 || way == 3 ? PsddManager::GetPsddManagerFromVtree(vt.root) : PsddManager::GetPsddManagerFromSddVtree(svt, map);
  PsddNode *r;
  if (way == 3) {
    std::vector<std::vector<SddLiteral>> cl;
    for (Asg a = 0; a < (1u << n); ++a) {
      if (f >> a & 1) continue;
      std::vector<SddLiteral> c;
      for (int i = 0; i < n; ++i) c.push_back(a >> i & 1 ? -sv[i] : sv[i]);
      cl.push_back(c);
    }
    CNF c(cl);
    r = c.Compile(m, 4);
  } else {
    SddNode *s = sdd_manager_false(sm);
    for (Asg a = 0; a < (1u << n); ++a) {
      if (!(f >> a & 1)) continue;
      SddNode *t = sdd_manager_true(sm);
      for (int i = 0; i < n; ++i) t = sdd_conjoin(t, sdd_manager_literal(a >> i & 1 ? sv[i] : -sv[i], sm), sm);
      s = sdd_disjoin(s, t, sm);
    }
    if (way == 2) r = m->FromSdd(s, svt, 4, m->vtree());
    else r = m->ConvertSddToPsdd(s, svt, 4);
  }
  vp_assert(r != nullptr, "manager: a satisfiable constraint gives a PSDD");
  Own theirs(svt), mine(m->vtree());
  for (Vtree *v : theirs.in) vp_assert(!mine.in.count(v), "manager: the vtree is a copy");
  vp_assert(vtreeClean(svt) && vtreeClean(m->vtree()), "manager: nothing attached to the vtrees");
  within(m, {r});
  Snap sn;
  sn.add(r);
  sdd_manager_free(sm);
  sdd_vtree_free(vt.root);
  litter();
  vp_assert(sn.same() && sn.clean(), "manager: unaffected by the end of the SDD manager");
  within(m, {r});
  SymSup ss(pv, vp_bits("world", n));
  vp_assert(ss.psdd(r) == ((f >> ss.a) & 1), "manager: the constraint survives the SDD manager");
  vp_assert(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(r)).get_si() == __builtin_popcountll(f), "manager: answers as before");
  vp_cover("imported");
}
// ---------------------------------------------------------------- identifiers over everything that makes nodes
struct Stream : RandomDoubleGenerator {
  double generate() override { return vp_real("r"); }
};
extern "C" void makers() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", vp_tier() ? 2 : 1), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n == 2 ? vp_choice("support", 15) : vp_choice("support", 12) * 21 + sh;
  VT vt = mkVtree(varNames(n, 1), sh);
  PsddManager *m = mkManager(vt), *far = mkManager(vt);
  Builder b(m, vt.vars), fb(far, vt.vars);
  b.style = fb.style = k % 3;
  Ref *r = b.build(m->vtree(), table(support(n, k), n));
  Ref *fr = fb.build(far->vtree(), table(support(n, supportCount(n) - 1 - k), n));
  std::vector<PsddNode *> roots = {r->node};
  Snap sn;
  sn.add(r->node);
  int len = vp_tier() ? 3 : 2;
  for (int i = 0; i < len; ++i) {
    PsddNode *x = nullptr;
    switch (vp_choice("maker", 9)) {
      case 0: x = m->GetTrueNode(m->vtree(), i); break;
      case 1: x = m->Multiply(r->node, roots.back(), 3).first; break;
      case 2: x = m->LoadPsddNode(m->vtree(), fr->node, 0); break;
      case 3: {
        Stream g;
        x = m->SampleParameters(&g, r->node, 0);
        break;
      }
      case 4: {
        Builder ub(m, vt.vars);
        ub.pol.unit = true;
        PsddNode *u = ub.build(m->vtree(), table(support(n, k), n))->node;
        const char *f = vp_tmp();
        psdd_node_util::WritePsddToFile(u, f);
        x = m->ReadPsddFile(f, i);
        vp_unlink(f);
        vp_assert(i || x == u, "manager: reading finds its own nodes");
        break;
      }
      case 5: {
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        for (int j = 0; j < n; ++j) ex[vt.vars[j]] = BatchedPsddValue(1, j & 1);
        x = m->LearnPsddParameters(r->node, ex, 1, PsddParameter::CreateFromDecimal(1), 0);
        break;
      }
      case 6: {
        CNF c(std::vector<std::vector<SddLiteral>>{{vt.vars[0], -vt.vars[1]}});
        x = c.Compile(m, i);
        break;
      }
      case 7: m->DeleteUnusedPsddNodes(roots); break;
      case 8: x = m->NormalizePsddNode(m->vtree(), m->GetPsddLiteralNode(vt.vars[n - 1], i), 0); break;
    }
    if (x) {
      roots.push_back(x);
      sn.add(x);
    }
    within(m, roots);
    vp_assert(sn.same() && sn.clean(), "manager: nodes never change once made");
  }
  apart({fr->node}, roots);
  within(far, {fr->node});
  for (PsddNode *x : roots) vp_assert(m->LoadPsddNode(m->vtree(), x, 9) != nullptr && sn.same(), "manager: nodes never change once made");
  weights(r, r->node, vt.vars);
  vp_cover("made");
}
