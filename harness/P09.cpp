// P09: discarding unused nodes never affects anything still in use.
#include "common.h"
#include <psdd/cnf.h>
using namespace vph;
struct Root { Ref *r; std::vector<Ref *> all; };
// ask for the content of a reference node again, children first
static PsddNode *again(PsddManager *m, const VT &vt, Ref *r, uintmax_t flag, std::map<Ref *, PsddNode *> *memo) {
  auto it = memo->find(r);
  if (it != memo->end()) return it->second;
  PsddNode *x;
  if (r->kind == 1) x = m->GetPsddLiteralNode(r->sign ? vt.vars[r->var] : -vt.vars[r->var], flag);
  else if (r->kind == 3) x = m->GetPsddTopNode(vt.vars[r->var], flag, Builder::par(r->wp), Builder::par(r->wn));
  else {
    std::vector<PsddNode *> p, s;
    std::vector<PsddParameter> w;
    for (size_t i = 0; i < r->p.size(); ++i) {
      p.push_back(again(m, vt, r->p[i], flag, memo));
      s.push_back(again(m, vt, r->s[i], flag, memo));
      w.push_back(Builder::par(r->w[i]));
    }
    x = m->GetConformedPsddDecisionNode(p, s, w, flag);
  }
  return (*memo)[r] = x;
}
static void weights(const VT &vt, Ref *r, PsddNode *x) {
  int n = vt.vars.size();
  for (Asg a = 0; a < (1u << n); ++a) {
    double w = refWeight(r, a), g = nodeWeight(x, asgMap(vt.vars, a));
    if (w == 0) vp_assert(g == 0, "kept: same support");
    else vp_log_eq(std::log(g), std::log(w), "kept: same weights");
  }
}
static void check(int n, int sh, const uint64_t *sup, int style, bool unit, int keep, bool below, int rounds) {
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Root roots[3];
  static const char *names[] = {"a", "b", "c"};
  for (int i = 0; i < 3; ++i) {
    Builder b(m, vt.vars);
    b.flag = i == 2 ? 4 : 0;
    b.style = style;
    b.pol.unit = unit && i != 1;
    b.pol.name = names[i];
    roots[i].r = b.build(m->vtree(), table(sup[i], n));
    roots[i].all = b.all;
  }
  Snap kept;
  std::vector<PsddNode *> used;
  std::set<PsddNode *> alive;
  for (int i = 0; i < 3; ++i)
    if (keep >> i & 1) {
      PsddNode *x = roots[i].r->node;
      if (below && roots[i].r->kind == 2) x = roots[i].r->s[0]->node;
      used.push_back(x);
      kept.add(x);
      reach(x, &alive);
    }
  if (keep == 3) used.push_back(used[0]);    // a root may be listed twice
  uintmax_t maxIndex = 0;
  std::map<Ref *, uintmax_t> oldIndex;
  for (Root &r : roots)
    for (Ref *x : r.all) {
      oldIndex[x] = x->node->node_index();
      if (x->node->node_index() > maxIndex) maxIndex = x->node->node_index();
    }
  for (int k = 0; k < rounds; ++k) m->DeleteUnusedPsddNodes(used);
  vp_assert(kept.same() && kept.clean(), "kept: same content");
  if (!below)
    for (int i = 0; i < 3; ++i)
      if (keep >> i & 1) {
        weights(vt, roots[i].r, roots[i].r->node);
        Bits none;
        vp_log_eq(psdd_node_util::Evaluate(none, none, roots[i].r->node).parameter(), std::log([&] {
                    double t = 0;
                    for (Asg a = 0; a < (1u << n); ++a) t += refSupport(roots[i].r, a) && !unit ? refWeight(roots[i].r, a) : 0;
                    return unit ? std::exp(psdd_node_util::Evaluate(none, none, roots[i].r->node).parameter()) : t;
                  }()),
                  "kept: answers as before");
      }
  // ask for everything again, in both orders
  std::set<uintmax_t> fresh;
  for (int j = 0; j < 3; ++j) {
    int i = rounds == 2 ? 2 - j : j;
    std::map<Ref *, PsddNode *> memo;
    again(m, vt, roots[i].r, i == 2 ? 4 : 0, &memo);
    for (auto &p : memo) {
      bool live = alive.count(p.first->node);
      if (live) {
        vp_assert(p.second == p.first->node && p.second->node_index() == oldIndex[p.first], "kept: found again when requested");
        vp_cover("found");
      } else {
        vp_assert(p.second->node_index() > maxIndex, "discarded: a request makes a new node with a new identifier");
        vp_cover("fresh");
      }
    }
    weights(vt, roots[i].r, memo[roots[i].r]);
  }
  vp_assert(kept.same(), "kept: same content");
}
extern "C" void collect() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  static const uint64_t F[] = {0xff, 0x96, 0x7e, 0x81, 0xe8, 0x35};
  uint64_t mask = (1ull << (1u << n)) - 1;
  int k = vp_choice("support", 6);
  uint64_t s[3] = {F[k] & mask, F[(k + 1) % 6] & mask, F[(k + (vp_tier() ? vp_choice("third", 3) : 2)) % 6] & mask};
  for (auto &x : s)
    if (!x) x = 1;
  bool unit = vp_choice("unit", 2);
  int c_keep = vp_choice("keep", 8); int c_below = vp_choice("below", 2); int c_rounds = vp_choice("rounds", 2);
  check(n, sh, s, k % 2, unit, c_keep, c_below, 1 + c_rounds);
}

// nodes shared by parents of other flags: a vtree over four variables, primes and subs of every flag
extern "C" void flags() {
  vp_mode("real", 1);
  int n = 4, sh = vp_choice("shape", 5);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  uint64_t pat = vp_choice("pattern", vp_tier() ? 64 : 16);
  if (!vp_tier()) pat = pat * 4 + sh % 4;
  auto fl = [&](int i) -> uintmax_t { return (pat >> i & 1) ? 3 : 0; };
  // every node of the vtree gets two PSDD nodes, whose flags follow the pattern
  std::map<Vtree *, std::vector<PsddNode *>> made;
  std::vector<Vtree *> order = vtree_util::SerializeVtree(vt.root);
  int at = 0;
  for (auto it = order.rbegin(); it != order.rend(); ++it) {
    Vtree *v = *it;
    if (sdd_vtree_is_leaf(v)) {
      SddLiteral x = sdd_vtree_var(v);
      made[v] = {m->GetPsddLiteralNode(x, fl(at % 6)), m->GetPsddLiteralNode(-x, fl((at + 1) % 6))};
    } else {
      auto &p = made[sdd_vtree_left(v)], &q = made[sdd_vtree_right(v)];
      double w = vp_real("w");
      std::vector<PsddParameter> par = {Builder::par(w), Builder::par(1)}, one = {Builder::par(1)};
      // the first child is shared by both, in its own flag
      made[v] = {m->GetConformedPsddDecisionNode({p[0], p[1]}, {q[0], q[1]}, par, fl((at + 2) % 6)),
                 m->GetConformedPsddDecisionNode({p[0]}, {q[1]}, one, fl((at + 3) % 6))};
    }
    ++at;
  }
  // kept: any one or two of the nodes made
  std::vector<PsddNode *> every;
  for (auto &x : made)
    for (PsddNode *y : x.second) every.push_back(y);
  int a = vp_choice("kept", order.size() * 2), b = vp_choice("also", 3);
  Vtree *va = order[a / 2];
  std::vector<PsddNode *> used = {made[va][a & 1]};
  if (b) used.push_back(made[vt.root][b - 1]);
  Snap kept;
  std::set<PsddNode *> alive;
  for (PsddNode *x : used) kept.add(x), reach(x, &alive);
  uintmax_t maxIndex = 0;
  for (PsddNode *x : every) maxIndex = std::max(maxIndex, x->node_index());
  std::vector<Snap::N> was;
  for (PsddNode *x : alive) was.push_back(Snap::read(x));
  m->DeleteUnusedPsddNodes(used);
  vp_assert(kept.same() && kept.clean(), "kept: same content");
  for (auto &x : was) {
    PsddNode *y;
    if (x.type == LITERAL_NODE_TYPE) y = m->GetPsddLiteralNode(x.lit, x.flag);
    else y = m->GetConformedPsddDecisionNode(x.p, x.s, x.n->psdd_decision_node()->parameters(), x.flag);
    vp_assert(y == x.n && y->node_index() == x.index, "kept: found again when requested");
    vp_cover("found");
  }
  for (auto it = order.begin(); it != order.end(); ++it)
    if (sdd_vtree_is_leaf(*it))
      for (SddLiteral l : {sdd_vtree_var(*it), -sdd_vtree_var(*it)})
        for (uintmax_t f : {0, 3}) {
          PsddNode *y = m->GetPsddLiteralNode(l, f);
          if (!alive.count(y)) {
            vp_assert(y->node_index() > maxIndex, "discarded: a request makes a new node with a new identifier");
            vp_cover("fresh");
          }
        }
  vp_assert(kept.same(), "kept: same content");
}

// nodes made by other operations, discarded or kept, and made again
struct Ones : public RandomDoubleGenerator {
  double x = 0.5;
  double generate() override { return x += 0.25; }
};
extern "C" void derived() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  uint64_t mask = (1ull << (1u << n)) - 1;
  static const uint64_t F[] = {0xff, 0x96, 0x7e, 0x35};
  b.pol.normalised = true;
  int k = vp_choice("support", 4);
  Ref *r = b.build(m->vtree(), table(F[k] & mask ? F[k] & mask : 1, n));
  std::vector<Vtree *> order = vtree_util::SerializeVtree(m->vtree());
  Vtree *at = order[vp_choice("at", order.size())];
  int op = vp_choice("operation", 11);
  uintmax_t flag = vp_choice("flag", 2) ? 7 : 0;
  // an SDD manager over the same vtree with variables 1..n by position
  std::vector<SddLiteral> sv;
  for (int i = 0; i < n; ++i) sv.push_back(i + 1);
  VT st = mkVtree(sv, sh);
  SddManager *sm = sdd_manager_new(st.root);
  sdd_manager_auto_gc_and_minimize_off(sm);
  const char *file = nullptr;
  if (op == 7) psdd_node_util::WritePsddToFile(r->node, file = vp_tmp());
  SddNode *sdd = sdd_manager_true(sm);
  if (op >= 8) {
    static const uint64_t G[] = {0x01, 0x80, 0x17, 0xfe};
    sdd = sdd_manager_false(sm);
    for (Asg a = 0; a < (1u << n); ++a) {
      if (!((G[k] >> a) & 1)) continue;
      SddNode *t = sdd_manager_true(sm);
      for (int i = 0; i < n; ++i) t = sdd_conjoin(t, sdd_manager_literal(a >> i & 1 ? i + 1 : -(i + 1), sm), sm);
      sdd = sdd_disjoin(sdd, t, sm);
    }
    // a constraint on the first variables only leaves the others free
    if (k & 1) sdd = sdd_manager_literal(-(1 + k % n), sm);
    if (sdd_node_is_false(sdd)) sdd = sdd_manager_literal(n, sm);
  }
  auto make = [&]() -> PsddNode * {
    Ones g;
    switch (op) {
    case 7: return m->ReadPsddFile(file, flag);
    case 8: return m->ConvertSddToPsdd(sdd, sdd_manager_vtree(sm), flag);
    case 9: return m->FromSdd(sdd, sdd_manager_vtree(sm), flag, m->vtree());
    case 10: {
      CNF c(std::vector<std::vector<SddLiteral>>{{vt.vars[0], -vt.vars[n - 1]}, {vt.vars[k % n]}});
      return c.Compile(m, flag);
    }
    case 0: return m->GetTrueNode(at, flag);
    case 1: return m->GetTrueNode(m->vtree(), flag);
    case 2: {
      Vtree *l = at;
      while (!sdd_vtree_is_leaf(l)) l = sdd_vtree_left(l);
      return m->NormalizePsddNode(at, m->GetPsddLiteralNode(-(SddLiteral)sdd_vtree_var(l), flag), flag);
    }
    case 3: return m->LoadPsddNode(m->vtree(), r->node, flag);
    case 4: return m->Multiply(r->node, m->GetTrueNode(m->vtree(), flag), flag).first;
    case 5: return m->SampleParameters(&g, r->node, flag);
    default: {
      Asg a = 0;
      while (!refSupport(r, a)) ++a;
      std::unordered_map<int32_t, BatchedPsddValue> ex;
      for (int i = 0; i < n; ++i) ex[vt.vars[i]] = BatchedPsddValue(1, a >> i & 1);
      return m->LearnPsddParameters(r->node, ex, 1, PsddParameter::CreateFromDecimal(1), flag);
    }
    }
  };
  std::set<PsddNode *> before, alive, now;
  reach(r->node, &before);
  PsddNode *x = make();
  reach(x, &before);
  uintmax_t maxIndex = 0;
  for (PsddNode *y : before) maxIndex = std::max(maxIndex, y->node_index());
  // intermediate nodes of an operation also have identifiers
  PsddNode *probe = m->GetPsddLiteralNode(vt.vars[0], 99);
  maxIndex = std::max(maxIndex, probe->node_index());
  Snap kept;
  std::vector<PsddNode *> used = {r->node};
  int keep = vp_choice("kept", 2);
  if (keep) used.push_back(x);
  for (PsddNode *y : used) kept.add(y), reach(y, &alive);
  m->DeleteUnusedPsddNodes(used);
  vp_assert(kept.same() && kept.clean(), "kept: same content");
  PsddNode *y = make();
  reach(y, &now);
  vp_assert(kept.same() && kept.clean(), "kept: same content");
  if (keep) vp_assert(x == y, "kept: found again when requested");
  for (PsddNode *z : now)
    if (!alive.count(z)) {
      vp_assert(z->node_index() > maxIndex, "discarded: a request makes a new node with a new identifier");
      vp_cover("fresh");
    }
  vp_assert(conforms(y, y->vtree_node()), "discarded: made again in full");
}
