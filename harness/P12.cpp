// P12: sampled parameters are the consumed numbers divided by their sum at each node.
#include "common.h"
using namespace vph;
struct Gen : public RandomDoubleGenerator {
  std::vector<double> u;
  double generate() override {
    u.push_back(vp_real("g"));
    return u.back();
  }
};
static bool eq(const PsddParameter &a, double w) { return a == PsddParameter::CreateFromDecimal(w); }
// the numbers used at a node form one block of the stream; which block is up to the implementation
struct Blocks {
  const std::vector<double> &u;
  std::vector<std::vector<PsddParameter>> nodes;
  std::map<std::pair<size_t, size_t>, bool> memo;
  std::vector<char> used;
  int budget = 20000;
  Blocks(const std::vector<double> &x) : u(x), used(x.size(), 0) {}
  bool fits(size_t k, size_t o) {
    auto key = std::make_pair(k, o);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    const std::vector<PsddParameter> &ps = nodes[k];
    size_t n = ps.size(), hit = 0;
    double sum = 0;
    for (size_t i = 0; i < n; ++i) sum += u[o + i];
    std::vector<char> taken(n, 0);
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        if (!taken[j] && eq(ps[i], u[o + j] / sum)) {
          taken[j] = 1;
          ++hit;
          break;
        }
    return memo[key] = hit == n;
  }
  bool cover(size_t k) {
    if (k == nodes.size()) return true;
    size_t n = nodes[k].size();
    for (size_t o = 0; o + n <= u.size(); ++o) {
      bool free = true;
      for (size_t i = 0; i < n; ++i) free = free && !used[o + i];
      if (!free || !fits(k, o)) continue;
      if (--budget < 0) return false;
      for (size_t i = 0; i < n; ++i) used[o + i] = 1;
      if (cover(k + 1)) return true;
      for (size_t i = 0; i < n; ++i) used[o + i] = 0;
    }
    return false;
  }
};
static void blocks(const std::vector<PsddNode *> &outs, const std::vector<double> &u) {
  Blocks b(u);
  for (int pass = 0; pass < 2; ++pass)       // single elements fit any number: place them last
    for (PsddNode *x : outs) {
      std::vector<PsddParameter> ps;
      if (PsddTopNode *t = x->psdd_top_node()) ps = {t->true_parameter(), t->false_parameter()};
      else if (PsddDecisionNode *d = x->psdd_decision_node()) ps = d->parameters();
      else continue;
      if ((ps.size() == 1) == (pass == 1)) b.nodes.push_back(ps);
    }
  bool all = b.cover(0);
  vp_assert(all || b.budget < 0, "SampleParameters: parameters are the consumed numbers over their sum at the node");
  if (!all) return;
  for (char c : b.used) vp_assert(c, "SampleParameters: no number is drawn without being used");
}
static bool sameStructure(PsddNode *a, PsddNode *b, std::map<PsddNode *, PsddNode *> *to) {
  auto it = to->find(a);
  if (it != to->end()) return it->second == b;
  (*to)[a] = b;
  if (a->vtree_node() != b->vtree_node() || a->node_type() != b->node_type()) return false;
  if (a->psdd_literal_node()) return a->psdd_literal_node()->literal() == b->psdd_literal_node()->literal();
  if (a->psdd_top_node()) return a->psdd_top_node()->variable_index() == b->psdd_top_node()->variable_index();
  PsddDecisionNode *x = a->psdd_decision_node(), *y = b->psdd_decision_node();
  if (x->primes().size() != y->primes().size()) return false;
  // elements may be listed in another order: match them by support of the prime
  size_t n = x->primes().size();
  std::vector<char> used(n, 0);
  for (size_t i = 0; i < n; ++i) {
    bool ok = false;
    for (size_t j = 0; j < n && !ok; ++j) {
      if (used[j]) continue;
      auto save = *to;
      if (sameStructure(x->primes()[i], y->primes()[j], to) && sameStructure(x->subs()[i], y->subs()[j], to)) {
        used[j] = 1;
        ok = true;
      } else *to = save;
    }
    if (!ok) return false;
  }
  return true;
}
static void run(const std::vector<Ref *> &roots, const VT &vt, PsddManager *m, uintmax_t flag, bool viaSingle) {
  Snap sn;
  std::vector<PsddNode *> in;
  for (Ref *r : roots) {
    in.push_back(r->node);
    sn.add(r->node);
  }
  Gen g;
  std::vector<PsddNode *> out;
  if (viaSingle) out.push_back(m->SampleParameters(&g, in[0], flag));
  else out = m->SampleParametersForMultiplePsdds(&g, in, flag);
  vp_assert(out.size() == in.size(), "SampleParameters: one result for every root");
  vp_assert(sn.same() && sn.clean(), "SampleParameters: the inputs are unchanged");
  std::map<PsddNode *, PsddNode *> to;
  std::set<PsddNode *> all;
  for (size_t i = 0; i < in.size(); ++i) {
    vp_assert(sameStructure(in[i], out[i], &to), "SampleParameters: same structure, in the order of the roots, shared nodes shared");
    reach(out[i], &all);
  }
  std::vector<PsddNode *> outs;
  for (auto &p : to) outs.push_back(p.second);
  for (PsddNode *x : outs) vp_assert(x->flag_index() == flag, "SampleParameters: requested flag");
  blocks(outs, g.u);
  vp_cover(in.size() > 1 ? "several" : "single");
}
extern "C" void single() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : vp_choice("support", 85) * 3 + sh;
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = k % 3;
  b.pol.unit = vp_choice("unit", 2);
  Ref *r = b.build(m->vtree(), table(support(n, k), n));
  run({r}, vt, m, 5 * (k & 1), vp_choice("via", 2));
}
// several roots that share nodes; also roots below another root
extern "C" void several() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  static const uint64_t F[] = {0xff, 0x96, 0x7e, 0x81, 0xe8, 0xc1};
  uint64_t mask = (1ull << (1u << n)) - 1;
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  int k = vp_choice("s1", 6), j = vp_choice("s2", 6);
  uint64_t s1 = F[k] & mask ? F[k] & mask : 1, s2 = F[j] & mask ? F[j] & mask : 2;
  Builder b(m, vt.vars);
  b.pol.unit = vp_choice("unit", 2);
  Ref *r1 = b.build(m->vtree(), table(s1, n)), *r2 = b.build(m->vtree(), table(s2, n));
  std::vector<Ref *> pool{r1, r2, r1->p[0], r1->s[0], r2->s[0]};
  int order = vp_choice("order", 6);
  static const int O[][3] = {{0, 1, -1}, {1, 0, 0}, {0, 2, 1}, {3, 0, -1}, {2, 4, 0}, {4, 1, 0}};
  std::vector<Ref *> roots;
  for (int x : O[order])
    if (x >= 0) roots.push_back(pool[x]);
  run(roots, vt, m, 9, false);
}
// parameters that coincide, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 ? vp_choice("support", supportCount(n)) : vp_choice("support", vp_tier() ? 85 : 15) * (vp_tier() ? 3 : 17);
  VT vt = mkVtree(varNames(n, 0), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = k % 3;
  Ref *r = b.build(m->vtree(), table(support(n, k), n));
  if (!vp_choice("roots", 2)) run({r}, vt, m, k % 3, true);
  else {
    Ref *o = b.build(m->vtree(), table(support(n, (k * 5 + 3) % supportCount(n)), n));
    run({o, r}, vt, m, k % 3, false);
  }
}
