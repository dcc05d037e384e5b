// P10: a PSDD written to a file and read back is the same distribution.
#include "common.h"
#include <fstream>
#include <sstream>
using namespace vph;
static const double TOL = 1e-6;              // six printed decimals
static void sameTree(PsddNode *a, PsddNode *b, std::map<PsddNode *, PsddNode *> *to) {
  auto it = to->find(a);
  if (it != to->end()) {
    vp_assert(it->second == b, "read back: shared nodes stay shared");
    return;
  }
  (*to)[a] = b;
  vp_assert(sdd_vtree_position(a->vtree_node()) == sdd_vtree_position(b->vtree_node()) && a->node_type() == b->node_type(), "read back: same structure");
  if (PsddLiteralNode *l = a->psdd_literal_node()) vp_assert(l->literal() == b->psdd_literal_node()->literal(), "read back: same literal");
  auto near = [](const PsddParameter &x, const PsddParameter &y) {
    if (x.parameter() == NINF) vp_assert(y.parameter() == NINF, "read back: zero parameters stay zero");
    else vp_log_near(x.parameter(), y.parameter(), TOL, "read back: parameters within the printed precision");
  };
  if (PsddTopNode *t = a->psdd_top_node()) {
    PsddTopNode *u = b->psdd_top_node();
    vp_assert(t->variable_index() == u->variable_index(), "read back: same variable");
    near(t->true_parameter(), u->true_parameter());
    near(t->false_parameter(), u->false_parameter());
  }
  if (PsddDecisionNode *d = a->psdd_decision_node()) {
    PsddDecisionNode *e = b->psdd_decision_node();
    size_t k = d->primes().size();
    vp_assert(e->primes().size() == k, "read back: same elements");
    // elements may be listed in another order: primes of one node have different supports
    extern std::vector<SddLiteral> gv;
    auto sig = [&](PsddNode *p) {
      uint64_t s = 0;
      for (Asg x = 0; x < (1u << gv.size()); ++x)
        if (nodeSupport(p, asgMap(gv, x))) s |= 1ull << x;
      return s;
    };
    std::vector<char> used(k, 0);
    for (size_t i = 0; i < k; ++i) {
      size_t j = 0;
      uint64_t si = sig(d->primes()[i]);
      while (j < k && (used[j] || sig(e->primes()[j]) != si)) ++j;
      vp_assert(j < k, "read back: same elements");
      used[j] = 1;
      near(d->parameters()[i], e->parameters()[j]);
      sameTree(d->primes()[i], e->primes()[j], to);
      sameTree(d->subs()[i], e->subs()[j], to);
    }
  }
}
std::vector<SddLiteral> gv;
static void fileShape(const char *f, size_t nodes) {
  std::ifstream in(f);
  std::string line;
  long declared = -1;
  std::set<long> seen;
  size_t count = 0;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == 'c') continue;
    std::istringstream ss(line);
    std::string tag;
    ss >> tag;
    if (tag == "psdd") {
      ss >> declared;
      continue;
    }
    long id, vt;
    ss >> id >> vt;
    vp_assert(!ss.fail() && seen.insert(id).second, "file: every node has its own id");
    ++count;
    if (tag == "D") {
      long k, p, s;
      std::string w;
      ss >> k;
      for (long i = 0; i < k; ++i) {
        ss >> p >> s >> w;
        vp_assert(!ss.fail() && seen.count(p) && seen.count(s) && p != id && s != id, "file: children are listed before parents");
      }
    }
    std::string rest;
    if (tag == "D") vp_assert(!(ss >> rest), "file: nothing after the elements");
  }
  vp_assert(declared == (long)nodes && count == nodes, "file: correct node count");
}
static void trip(int n, int sh, int style, uint64_t s, int names, bool norm, int zg, int zw, int how) {
  VT vt = mkVtree(varNames(n, names), sh);
  gv = vt.vars;
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = style;
  b.reverse = how & 1;
  b.pol.normalised = norm;
  b.pol.zeroAt = zg, b.pol.zeroWhich = zw;
  Ref *r = b.build(m->vtree(), table(s, n));
  Snap sn;
  sn.add(r->node);
  // another manager over the same vtree, empty or already in use, or the same one
  PsddManager *t = how == 0 ? m : mkManager(vt);
  if (how == 2) t->GetTrueNode(t->vtree(), 0);
  std::set<PsddNode *> ns;
  reach(r->node, &ns);
  const char *f = vp_tmp();
  psdd_node_util::WritePsddToFile(r->node, f);
  vp_assert(sn.same() && sn.clean(), "WritePsddToFile: the source is unchanged");
  fileShape(f, ns.size());
  PsddNode *x = t->ReadPsddFile(f, 3);
  vp_unlink(f);
  vp_assert(x != nullptr && conforms(x, t->vtree()), "read back: conforms to the vtree");
  std::set<PsddNode *> got;
  reach(x, &got);
  for (PsddNode *y : got) vp_assert(y->flag_index() == 3, "read back: requested flag");
  std::map<PsddNode *, PsddNode *> to;
  sameTree(r->node, x, &to);
  vp_assert(sn.same() && sn.clean(), "ReadPsddFile: the source is unchanged");
  vp_cover("round trip");
}
extern "C" void supports() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : vp_choice("support", 64) * 4 + sh;
  if (k >= supportCount(n)) k = 254;
  trip(n, sh, k % 3, support(n, k), (k >> 1) & 1 ? 2 : 0, k & 1, -1, 0, vp_choice("target", 3));
}
extern "C" void zeros() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12);
  int c_zgroup = vp_choice("zgroup", 3); int c_zwhich = vp_choice("zwhich", 2);
  trip(n, sh, k % 3, support(n, k), 0, true, c_zgroup, c_zwhich, k % 3);
}
extern "C" void four() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 5);
  uint64_t k = vp_choice("support", vp_tier() ? 32 : 5);
  trip(4, sh, k % 3, support(4, k), 2, true, -1, 0, k % 3);
}
// parameters that coincide, nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12);
  bool norm = vp_choice("normalised", 2);
  trip(n, sh, k % 3, support(n, k), 1, norm, -1, 0, (k + gTie) % 3);
}
