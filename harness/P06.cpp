// P06: a logical constraint imported as an SDD or as clauses keeps exactly its models, each with weight one.
#include "common.h"
#include <psdd/cnf.h>
using namespace vph;
// the SDD of a truth table over SDD variables pos2var[0..n-1] of the manager
static SddNode *sddOf(SddManager *m, uint64_t f, const std::vector<SddLiteral> &v) {
  SddNode *r = sdd_manager_false(m);
  for (uint64_t x = 0; x < (1ull << v.size()); ++x) {
    if (!(f >> x & 1)) continue;
    SddNode *t = sdd_manager_true(m);
    for (size_t i = 0; i < v.size(); ++i) t = sdd_conjoin(t, sdd_manager_literal(x >> i & 1 ? v[i] : -v[i], m), m);
    r = sdd_disjoin(r, t, m);
  }
  return r;
}
// number of times the PSDD generates the assignment word (every parameter must be one)
struct Count {
  std::map<SddLiteral, int> pos;
  uint64_t a;
  std::map<PsddNode *, uint64_t> memo;
  bool ones = true;
  uint64_t of(PsddNode *n) {
    if (PsddLiteralNode *l = n->psdd_literal_node()) {
      uint64_t b = (a >> pos.at(std::abs(l->literal()))) & 1;
      return l->literal() > 0 ? b : b ^ 1;
    }
    if (PsddTopNode *t = n->psdd_top_node()) {
      ones = ones && t->true_parameter().parameter() == 0 && t->false_parameter().parameter() == 0 && pos.count(t->variable_index());
      return 1;
    }
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    PsddDecisionNode *d = n->psdd_decision_node();
    uint64_t r = 0;
    for (size_t i = 0; i < d->primes().size(); ++i) {
      ones = ones && d->parameters()[i].parameter() == 0;
      r += of(d->primes()[i]) * of(d->subs()[i]);
    }
    return memo[n] = r;
  }
};
static void flags(PsddNode *r, uintmax_t flag) {
  std::set<PsddNode *> ns;
  reach(r, &ns);
  for (PsddNode *x : ns) vp_assert(x->flag_index() == flag, "import: requested flag");
}
// truth: bit of the table selected by the symbolic word, computed without branching
static void models(PsddNode *r, Vtree *at, const std::vector<SddLiteral> &vars, uint64_t word, uint64_t truth, bool sat, uintmax_t flag) {
  if (!sat) {
    vp_assert(r == nullptr, "import: an unsatisfiable constraint gives the null PSDD");
    vp_cover("unsatisfiable");
    return;
  }
  vp_assert(r != nullptr, "import: a satisfiable constraint gives a PSDD");
  vp_assert(conforms(r, at), "import: conforms to the target vtree");
  flags(r, flag);
  Count c;
  for (size_t i = 0; i < vars.size(); ++i) c.pos[vars[i]] = i;
  c.a = word;
  uint64_t k = c.of(r);
  vp_assert(c.ones, "import: every parameter is one");
  vp_assert(k == truth, "import: exactly the models, each with weight one");
  Snap s;
  s.add(r);
  vp_assert(s.clean(), "import: no scratch data is left");
  vp_cover("models");
}
static uint64_t word(int n) { return vp_bits("world", n); }
// an SDD over the whole vtree
static void whole(int n, int sh, int names, uint64_t f, int route) {
  // SDD variables 1..n in some order over the leaves; PSDD variable of each
  static const int perm[3][5] = {{1, 2, 3, 4, 5}, {3, 1, 2, 5, 4}, {2, 1, 4, 3, 5}};
  std::vector<SddLiteral> sv;
  for (int i = 0; i < 5; ++i)
    if (perm[names][i] <= n) sv.push_back(perm[names][i]);
  VT vt = mkVtree(sv, sh);
  SddManager *sm = sdd_manager_new(vt.root);
  sdd_manager_auto_gc_and_minimize_off(sm);
  Vtree *svt = sdd_manager_vtree(sm);
  std::vector<SddLiteral> pv = varNames(n, names);
  std::unordered_map<uint32_t, uint32_t> map;
  std::unordered_map<SddLiteral, SddLiteral> map2;
  for (int i = 0; i < n; ++i) map[sv[i]] = pv[i], map2[sv[i]] = pv[i];
  PsddManager *m;
  if (route == 1) {
    Vtree *c = vtree_util::CopyVtree(svt, map2);
    m = PsddManager::GetPsddManagerFromVtree(c);
  } else m = PsddManager::GetPsddManagerFromSddVtree(svt, map);
  SddNode *s = sddOf(sm, f, sv);
  PsddNode *r = route < 2 ? m->ConvertSddToPsdd(s, svt, 2) : m->FromSdd(s, svt, 2, m->vtree());
  vp_assert(vtreeClean(svt) && vtreeClean(m->vtree()), "import: nothing stays attached to a vtree");
  uint64_t w = word(n);
  models(r, m->vtree(), pv, w, (f >> w) & 1, f != 0, 2);
  PsddNode *again = route < 2 ? m->FromSdd(s, svt, 2, m->vtree()) : m->ConvertSddToPsdd(s, svt, 2);
  vp_assert(again == r, "import: repeated import gives the same PSDD");
  vp_assert(sdd_node_is_false(s) == (f == 0) && vtreeClean(svt), "import: nothing stays attached to a vtree");
}
extern "C" void sdd() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t f = vp_choice("function", 1ull << (1u << n));
  int names = vp_choice("names", 3), route = vp_choice("route", 3);
  whole(n, sh, names, f, route);
}
extern "C" void four() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 5);
  uint64_t k = vp_choice("function", 32);
  whole(4, sh, k % 3, support(4, k), (k + sh) % 3);
}
// functions of two variables anywhere in a vtree over four (thorough: five): vtree levels are skipped on both sides
extern "C" void skips() {
  vp_mode("real", 1);
  int n = 4 + (vp_tier() ? vp_choice("n", 2) : 0), sh = vp_choice("shape", nShapes[n]);
  int i = vp_choice("i", n), j = vp_choice("j", n);
  vp_assume(i < j);
  unsigned g = 1 + vp_choice("function", 14);
  uint64_t f = 0;
  for (int x = 0; x < (1 << n); ++x)
    if (g >> ((x >> i & 1) | (x >> j & 1) << 1) & 1) f |= 1ull << x;
  whole(n, sh, (g + i) % 3, f, (g + j) % 3);
}
// an SDD over a sub-vtree of a larger PSDD vtree
extern "C" void sub() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]), where = vp_choice("where", 4);
  uint64_t f = vp_choice("function", 1ull << (1u << n));
  std::vector<SddLiteral> pv = varNames(n, f % 3), sv;
  Vtree *in = shape(pv, 0, n, sh);
  Vtree *out = where == 0 ? new_internal_vtree(in, new_leaf_vtree(7))
             : where == 1 ? new_internal_vtree(new_leaf_vtree(7), in)
             : where == 2 ? new_internal_vtree(new_leaf_vtree(8), new_internal_vtree(in, new_leaf_vtree(7)))
                          : new_internal_vtree(new_internal_vtree(new_leaf_vtree(7), new_leaf_vtree(9)), new_internal_vtree(new_leaf_vtree(8), in));
  set_vtree_properties(out);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(out);
  for (int i = 0; i < n; ++i) sv.push_back(i + 1);
  VT vt = mkVtree(sv, sh);
  SddManager *sm = sdd_manager_new(vt.root);
  sdd_manager_auto_gc_and_minimize_off(sm);
  Vtree *svt = sdd_manager_vtree(sm);
  SddNode *s = sddOf(sm, f, sv);
  std::unordered_set<SddLiteral> used(pv.begin(), pv.end());
  Vtree *at = vtree_util::SubVtreeByVariables(m->vtree(), used);
  vp_assert(at != nullptr && sdd_vtree_var_count(at) == n, "import: the sub-vtree with the used variables");
  PsddNode *r = m->FromSdd(s, svt, 1, used);
  vp_assert(vtreeClean(svt) && vtreeClean(m->vtree()), "import: nothing stays attached to a vtree");
  uint64_t w = word(n);
  models(r, at, pv, w, (f >> w) & 1, f != 0, 1);
  vp_assert(m->FromSdd(s, svt, 1, at) == r, "import: repeated import gives the same PSDD");
}
// clauses
static void cnf(int n, int sh, int names, const std::vector<std::vector<SddLiteral>> &cl, const std::vector<SddLiteral> &pv, PsddManager *m) {
  CNF c(cl);
  vp_assert(c.clauses() == cl, "CNF: the clauses given");
  PsddNode *r = c.Compile(m, 3);
  vp_assert(vtreeClean(m->vtree()), "import: nothing stays attached to a vtree");
  std::map<SddLiteral, int> pos;
  for (int i = 0; i < n; ++i) pos[pv[i]] = i;
  auto truth = [&](uint64_t w) {
    uint64_t t = 1;
    for (auto &q : cl) {
      uint64_t o = 0;
      for (SddLiteral l : q) o |= ((w >> pos[std::abs(l)]) & 1) ^ (l < 0);
      t &= o;
    }
    return t;
  };
  bool sat = false;
  for (uint64_t x = 0; x < (1ull << n); ++x) sat = sat || truth(x);
  uint64_t w = word(n);
  models(r, m->vtree(), pv, w, truth(w), sat, 3);
}
static std::vector<SddLiteral> clause(const std::vector<SddLiteral> &pv, int k, bool back) {
  std::vector<SddLiteral> q;
  for (size_t i = 0; i < pv.size(); ++i, k /= 3)
    if (k % 3) q.insert(back ? q.begin() : q.end(), k % 3 == 1 ? pv[i] : -pv[i]);
  return q;
}
extern "C" void clauses() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  static const int P3[] = {1, 3, 9, 27};
  int names = (n + sh) % 3;
  std::vector<SddLiteral> pv = varNames(n, names);
  VT vt = mkVtree(pv, sh);
  PsddManager *m = mkManager(vt);
  std::vector<std::vector<SddLiteral>> cl;
  int k = vp_choice("clauses", n < 3 || vp_tier() ? 4 : 3);
  for (int i = 0; i < k; ++i) {
    int d = vp_choice("clause", P3[n]);
    cl.push_back(clause(pv, d, i & 1));
  }
  if (k && vp_choice("odd", 2)) cl[0].push_back(cl[0].empty() ? pv[0] : -cl[0][0]);   // a clause that always holds, or a repeated one
  cnf(n, sh, names, cl, pv, m);
}
