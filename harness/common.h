// Shared by the harnesses: vtrees of every shape, PSDDs of every support, and reference semantics
// written directly from the definition of a PSDD.
#pragma once
#include "vp.h"
#include <cmath>
#include <bitset>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>

namespace vph {
typedef std::bitset<MAX_VAR> Bits;
typedef uint32_t Asg;                       // complete assignment: bit i = value of the i-th variable (leaf order of vars[])
static const double NINF = -INFINITY;

// ---------------------------------------------------------------- vtrees
struct VT {
  std::vector<SddLiteral> vars;             // variable number of position i (left-to-right leaves)
  Vtree *root = nullptr;
};
static const int nShapes[] = {0, 1, 1, 2, 5, 14, 42};
// the k-th binary tree with leaves lo..hi-1
static inline Vtree *shape(const std::vector<SddLiteral> &vars, int lo, int hi, int k) {
  if (hi - lo == 1) return new_leaf_vtree(vars[lo]);
  for (int m = 1; m < hi - lo; ++m) {
    int a = nShapes[m], b = nShapes[hi - lo - m];
    if (k < a * b) return new_internal_vtree(shape(vars, lo, lo + m, k / b), shape(vars, lo + m, hi, k % b));
    k -= a * b;
  }
  return nullptr;
}
static inline VT mkVtree(const std::vector<SddLiteral> &vars, int k) {
  VT v;
  v.vars = vars;
  v.root = shape(vars, 0, vars.size(), k);
  set_vtree_properties(v.root);
  return v;
}
// variable numbers: not contiguous, not in leaf order, and on both sides of a word boundary when wide
static inline std::vector<SddLiteral> varNames(int n, int style) {
  static const SddLiteral A[] = {3, 1, 6, 2, 5, 11}, B[] = {1, 2, 3, 4, 5, 6}, W[] = {64, 3, 130, 63, 1, 127};
  const SddLiteral *p = style == 0 ? A : style == 1 ? B : W;
  return std::vector<SddLiteral>(p, p + n);
}
// ---------------------------------------------------------------- reference PSDDs
// A reference PSDD is a tree/DAG kept apart from the code under test; weights are real numbers.
struct Ref {
  int kind = 0;                             // 1 literal, 2 decision, 3 top
  int var = 0;                              // position of the variable (kinds 1,3)
  bool sign = false;
  double wp = 0, wn = 0;                    // top: weight of true / false
  std::vector<Ref *> p, s;
  std::vector<double> w;
  uint32_t mask = 0;                        // positions below
  Vtree *vt = nullptr;
  PsddNode *node = nullptr;                 // counterpart in the manager
};
static inline double refWeight(const Ref *r, Asg a) {
  if (r->kind == 1) return ((a >> r->var & 1) != 0) == r->sign ? 1.0 : 0.0;
  if (r->kind == 3) return (a >> r->var & 1) ? r->wp : r->wn;
  double t = 0;
  for (size_t i = 0; i < r->p.size(); ++i) {
    double x = refWeight(r->p[i], a);
    if (x == 0) continue;
    double y = refWeight(r->s[i], a);
    if (y == 0) continue;
    t += r->w[i] * x * y;
  }
  return t;
}
static inline bool refSupport(const Ref *r, Asg a) {   // structural support, ignoring zero parameters
  if (r->kind == 1) return ((a >> r->var & 1) != 0) == r->sign;
  if (r->kind == 3) return true;
  for (size_t i = 0; i < r->p.size(); ++i)
    if (refSupport(r->p[i], a) && refSupport(r->s[i], a)) return true;
  return false;
}
static inline double lg(double x) { return x == 0 ? NINF : std::log(x); }

// Coincidences: 1 every group uniform; 2 all groups of one size share their weights; 3 the same, reversed in every other group
static int gTie = 0;
static std::vector<double> gRaw;
static bool gMixed = false;                  // the nodes of a PSDD carry different flag indexes
// how the parameters are chosen
struct ParamPolicy {
  bool normalised = true;   // w_i / sum
  bool unit = false;        // every parameter is one
  int zeroAt = -1;          // index (in creation order) of a parameter group in which one weight is zero
  int zeroWhich = 0;        // which weight of that group
  int group = 0;
  const char *name = "w";
  std::vector<double> next(int n) {
    std::vector<double> w(n);
    int z = group == zeroAt ? zeroWhich % n : -1;
    ++group;
    if (unit) {
      for (auto &x : w) x = 1;
      return w;
    }
    if (normalised && n == 1) {
      w[0] = 1;
      return w;
    }
    double sum = 0;
    for (int i = 0; i < n; ++i) {
      if (gTie > 1)
        while (gRaw.size() < (size_t)n) gRaw.push_back(vp_real("w"));
      double x = gTie == 0 ? vp_real(name) : gTie == 1 ? 1.0 : gRaw[gTie == 3 && group % 2 ? n - 1 - i : i];
      w[i] = (i == z && n > 1) ? 0 : x;
      sum += w[i];
    }
    if (normalised)
      for (int i = 0; i < n; ++i) w[i] = w[i] == 0 ? 0 : w[i] / sum;
    return w;
  }
};
// Compile a support (truth table over the positions) to a PSDD over a vtree.
// style 0: compressed elements, equal sub-problems shared; 1: compressed, nothing shared;
//       2: one element per left assignment (uncompressed), shared leaves
struct Builder {
  PsddManager *m;
  uintmax_t flag = 0;
  int style = 0;
  bool reverse = false;                      // order of elements
  std::vector<SddLiteral> vars;
  ParamPolicy pol;
  std::map<std::pair<Vtree *, std::vector<char>>, Ref *> cache;
  std::vector<Ref *> all;
  std::map<SddLiteral, int> posOf;
  Builder(PsddManager *mm, const std::vector<SddLiteral> &v) : m(mm), vars(v) {
    for (size_t i = 0; i < v.size(); ++i) posOf[v[i]] = i;
  }
  std::vector<int> positions(Vtree *v) {
    if (sdd_vtree_is_leaf(v)) return {posOf[sdd_vtree_var(v)]};
    std::vector<int> a = positions(sdd_vtree_left(v)), b = positions(sdd_vtree_right(v));
    a.insert(a.end(), b.begin(), b.end());
    return a;
  }
  uintmax_t flagOf() { return gMixed ? flag + all.size() % 2 : flag; }
  static PsddParameter par(double w) { return PsddParameter::CreateFromDecimal(w); }
  // f: truth table over positions(v), index bit i = value of the i-th of them; must not be empty
  Ref *build(Vtree *v, const std::vector<char> &f) {
    auto key = std::make_pair(v, f);
    if (style != 1) {
      auto it = cache.find(key);
      if (it != cache.end()) return it->second;
    }
    Ref *r = new Ref;
    r->vt = v;
    std::vector<int> ps = positions(v);
    for (int x : ps) r->mask |= 1u << x;
    if (sdd_vtree_is_leaf(v)) {
      r->var = ps[0];
      SddLiteral name = sdd_vtree_var(v);
      if (f[0] && f[1]) {
        r->kind = 3;
        std::vector<double> w = pol.next(2);
        r->wn = w[0], r->wp = w[1];
        r->node = m->GetPsddTopNode(name, flagOf(), par(r->wp), par(r->wn));
      } else {
        r->kind = 1;
        r->sign = f[1];
        r->node = m->GetPsddLiteralNode(f[1] ? name : -name, flagOf());
      }
    } else {
      r->kind = 2;
      int nl = positions(sdd_vtree_left(v)).size(), nr = ps.size() - nl;
      std::vector<std::vector<char>> pf, sf;
      for (int x = 0; x < (1 << nl); ++x) {
        std::vector<char> cof(1 << nr);
        bool any = false;
        for (int y = 0; y < (1 << nr); ++y) {
          cof[y] = f[x | y << nl];
          any = any || cof[y];
        }
        if (!any) continue;
        size_t k = 0;
        if (style == 2) k = sf.size();
        else
          while (k < sf.size() && sf[k] != cof) ++k;
        if (k == sf.size()) {
          sf.push_back(cof);
          pf.push_back(std::vector<char>(1 << nl, 0));
        }
        pf[k][x] = 1;
      }
      if (reverse) {
        std::vector<std::vector<char>> a(pf.rbegin(), pf.rend()), b(sf.rbegin(), sf.rend());
        pf = a, sf = b;
      }
      std::vector<PsddNode *> pn, sn;
      std::vector<PsddParameter> pr;
      std::vector<double> w = pol.next(sf.size());
      for (size_t i = 0; i < sf.size(); ++i) {
        r->p.push_back(build(sdd_vtree_left(v), pf[i]));
        r->s.push_back(build(sdd_vtree_right(v), sf[i]));
        r->w.push_back(w[i]);
        pn.push_back(r->p[i]->node);
        sn.push_back(r->s[i]->node);
        pr.push_back(par(w[i]));
      }
      r->node = m->GetConformedPsddDecisionNode(pn, sn, pr, flagOf());
    }
    cache[key] = r;
    all.push_back(r);
    return r;
  }
};
static inline std::vector<char> table(uint64_t bits, int n) {
  std::vector<char> f(1u << n);
  for (unsigned i = 0; i < f.size(); ++i) f[i] = bits >> i & 1;
  return f;
}
static inline PsddManager *mkManager(const VT &v) { return PsddManager::GetPsddManagerFromVtree(v.root); }
// ---------------------------------------------------------------- reading a PSDD through its accessors
static inline double nodeWeight(PsddNode *n, const std::map<SddLiteral, bool> &a) {
  if (PsddLiteralNode *l = n->psdd_literal_node()) {
    return a.at(std::abs(l->literal())) == (l->literal() > 0) ? 1.0 : 0.0;
  }
  if (PsddTopNode *t = n->psdd_top_node()) return std::exp((a.at(t->variable_index()) ? t->true_parameter() : t->false_parameter()).parameter());
  PsddDecisionNode *d = n->psdd_decision_node();
  double r = 0;
  for (size_t i = 0; i < d->primes().size(); ++i) {
    double x = nodeWeight(d->primes()[i], a);
    if (x == 0) continue;
    double y = nodeWeight(d->subs()[i], a);
    if (y == 0) continue;
    r += x * y * std::exp(d->parameters()[i].parameter());
  }
  return r;
}
static inline bool nodeSupport(PsddNode *n, const std::map<SddLiteral, bool> &a) {  // ignoring the parameters
  if (PsddLiteralNode *l = n->psdd_literal_node()) return a.at(std::abs(l->literal())) == (l->literal() > 0);
  PsddDecisionNode *d = n->psdd_decision_node();
  if (!d) return true;
  for (size_t i = 0; i < d->primes().size(); ++i)
    if (nodeSupport(d->primes()[i], a) && nodeSupport(d->subs()[i], a)) return true;
  return false;
}
static inline std::map<SddLiteral, bool> asgMap(const std::vector<SddLiteral> &vars, Asg a) {
  std::map<SddLiteral, bool> m;
  for (size_t i = 0; i < vars.size(); ++i) m[vars[i]] = a >> i & 1;
  return m;
}
static inline void setBits(Bits *b, const std::vector<SddLiteral> &vars, Asg a) {
  for (size_t i = 0; i < vars.size(); ++i) (*b)[vars[i]] = a >> i & 1;
}
// structural conformance with the vtree
static inline bool conforms(PsddNode *n, Vtree *v) {
  if (n->vtree_node() != v) return false;
  if (PsddLiteralNode *l = n->psdd_literal_node()) return sdd_vtree_is_leaf(v) && (SddLiteral)l->variable_index() == sdd_vtree_var(v);
  if (PsddTopNode *t = n->psdd_top_node()) return sdd_vtree_is_leaf(v) && (SddLiteral)t->variable_index() == sdd_vtree_var(v);
  PsddDecisionNode *d = n->psdd_decision_node();
  if (sdd_vtree_is_leaf(v) || d->primes().empty() || d->primes().size() != d->subs().size() || d->primes().size() != d->parameters().size()) return false;
  for (size_t i = 0; i < d->primes().size(); ++i)
    if (!conforms(d->primes()[i], sdd_vtree_left(v)) || !conforms(d->subs()[i], sdd_vtree_right(v))) return false;
  return true;
}
static inline void reach(PsddNode *n, std::set<PsddNode *> *out) {
  if (!out->insert(n).second) return;
  if (PsddDecisionNode *d = n->psdd_decision_node()) {
    for (PsddNode *x : d->primes()) reach(x, out);
    for (PsddNode *x : d->subs()) reach(x, out);
  }
}
// 1 when the PSDD (ignoring parameters) or SDD accepts the assignment word a (bit i = value of position i), without branching
struct SymSup {
  std::map<SddLiteral, int> pos;
  uint64_t a;
  std::map<void *, uint64_t> memo;
  SymSup(const std::vector<SddLiteral> &vars, uint64_t w) : a(w) {
    for (size_t i = 0; i < vars.size(); ++i) pos[vars[i]] = i;
  }
  uint64_t lit(SddLiteral l) {
    uint64_t b = (a >> pos.at(std::abs(l))) & 1;
    return l > 0 ? b : b ^ 1;
  }
  uint64_t psdd(PsddNode *n) {
    if (PsddLiteralNode *l = n->psdd_literal_node()) return lit(l->literal());
    PsddDecisionNode *d = n->psdd_decision_node();
    if (!d) return 1;
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    uint64_t r = 0;
    for (size_t i = 0; i < d->primes().size(); ++i) r |= psdd(d->primes()[i]) & psdd(d->subs()[i]);
    return memo[n] = r;
  }
  uint64_t sdd(SddNode *n) {
    if (sdd_node_is_true(n)) return 1;
    if (sdd_node_is_false(n)) return 0;
    if (sdd_node_is_literal(n)) return lit(sdd_node_literal(n));
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    SddNode **e = sdd_node_elements(n);
    uint64_t r = 0;
    for (SddSize i = 0; i < sdd_node_size(n); ++i) r |= sdd(e[2 * i]) & sdd(e[2 * i + 1]);
    return memo[n] = r;
  }
};
static inline bool sameD(double a, double b) { return a == b; }
// everything observable about a set of nodes, to check that an operation left them alone
struct Snap {
  struct N {
    PsddNode *n;
    uintmax_t index, flag;
    Vtree *vt;
    int type;
    int64_t lit;
    std::vector<PsddNode *> p, s;
    std::vector<double> w;
  };
  std::vector<N> ns;
  static N read(PsddNode *x) {
    N r;
    r.n = x, r.index = x->node_index(), r.flag = x->flag_index(), r.vt = x->vtree_node(), r.type = x->node_type(), r.lit = 0;
    if (PsddLiteralNode *l = x->psdd_literal_node()) r.lit = l->literal();
    else if (PsddTopNode *t = x->psdd_top_node()) {
      r.lit = t->variable_index();
      r.w.push_back(t->true_parameter().parameter());
      r.w.push_back(t->false_parameter().parameter());
    } else {
      PsddDecisionNode *d = x->psdd_decision_node();
      r.p = d->primes(), r.s = d->subs();
      for (auto &q : d->parameters()) r.w.push_back(q.parameter());
    }
    return r;
  }
  void add(PsddNode *root) {
    std::set<PsddNode *> all;
    for (N &x : ns) all.insert(x.n);
    std::set<PsddNode *> more;
    reach(root, &more);
    for (PsddNode *x : more)
      if (!all.count(x)) ns.push_back(read(x));
  }
  bool same() const {
    for (const N &x : ns) {
      N y = read(x.n);
      if (x.index != y.index || x.flag != y.flag || x.vt != y.vt || x.type != y.type || x.lit != y.lit || x.p != y.p || x.s != y.s || x.w.size() != y.w.size()) return false;
      for (size_t i = 0; i < x.w.size(); ++i)
        if (!sameD(x.w[i], y.w[i])) return false;
    }
    return true;
  }
  bool clean() const {                       // no scratch data, no activation marks, no counters
    for (const N &x : ns) {
      if (x.n->user_data() != 0 || x.n->activation_flag()) return false;
      if (PsddTopNode *t = x.n->psdd_top_node()) {
        if (t->true_data_count() || t->false_data_count()) return false;
      } else if (PsddDecisionNode *d = x.n->psdd_decision_node()) {
        for (uintmax_t c : d->data_counts())
          if (c) return false;
      }
    }
    return true;
  }
};
static inline bool vtreeClean(Vtree *v) {
  for (Vtree *x : vtree_util::SerializeVtree(v))
    if (sdd_vtree_data(x) != nullptr) return false;
  return true;
}
// support families: for n<=3 every non-empty support; for n=4 a mixed family
static inline uint64_t support(int n, uint64_t k) {
  if (n <= 3) return k + 1;
  static const uint64_t F[] = {0xffff, 0x6996, 0x0001, 0x8000, 0x8001, 0x7fff, 0xfffe, 0x1248, 0x8421, 0x0ff0, 0xf00f, 0xcafe, 0x1b2d, 0xe817, 0x7ee8, 0x5a3c,
                               0x0660, 0xbeef, 0x1234, 0xa5f0, 0x3fc1, 0xd6b9, 0x0180, 0x9009, 0x5555, 0x3333, 0x0f0f, 0x00ff, 0x6006, 0xfee1, 0x8778, 0x2d4b};
  return F[k % 32];
}
static inline uint64_t supportCount(int n) { return n <= 3 ? (1ull << (1u << n)) - 1 : 32; }
}  // namespace vph
