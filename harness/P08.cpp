// P08: equal nodes are shared, different nodes never are.
#include "common.h"
using namespace vph;
struct Req {                                 // content of a request
  int kind;                                  // 1 literal, 2 decision, 3 top
  int64_t v;
  uintmax_t flag;
  double p, q;
  std::vector<PsddNode *> pr, su;
  std::vector<double> w;
};
static bool eqContent(const Req &a, const Req &b) {
  if (a.kind != b.kind || a.flag != b.flag) return false;
  if (a.kind == 1) return a.v == b.v;
  if (a.kind == 3) return a.v == b.v && a.p == b.p && a.q == b.q;
  if (a.pr.size() != b.pr.size()) return false;
  for (size_t i = 0; i < a.pr.size(); ++i) {
    bool hit = false;
    for (size_t j = 0; j < b.pr.size() && !hit; ++j) hit = a.pr[i] == b.pr[j] && a.su[i] == b.su[j] && a.w[i] == b.w[j];
    if (!hit) return false;
  }
  return true;
}
static PsddParameter par(double w) { return PsddParameter::CreateFromDecimal(w); }
static PsddNode *request(PsddManager *m, const Req &r) {
  if (r.kind == 1) return m->GetPsddLiteralNode(r.v, r.flag);
  if (r.kind == 3) return m->GetPsddTopNode(r.v, r.flag, par(r.p), par(r.q));
  std::vector<PsddParameter> w;
  for (double x : r.w) w.push_back(par(x));
  return m->GetConformedPsddDecisionNode(r.pr, r.su, w, r.flag);
}
static void content(PsddNode *n, const Req &r) {
  vp_assert(n->flag_index() == r.flag, "node carries the requested flag");
  vp_assert(n->user_data() == 0 && !n->activation_flag(), "node carries no scratch data");
  if (r.kind == 1) vp_assert(n->psdd_literal_node() && n->psdd_literal_node()->literal() == r.v, "node carries the requested literal");
  else if (r.kind == 3) {
    PsddTopNode *t = n->psdd_top_node();
    vp_assert(t && (int64_t)t->variable_index() == r.v, "node carries the requested variable");
    vp_log_eq(t->true_parameter().parameter(), lg(r.p), "node carries the requested true parameter");
    vp_log_eq(t->false_parameter().parameter(), lg(r.q), "node carries the requested false parameter");
  } else {
    PsddDecisionNode *d = n->psdd_decision_node();
    vp_assert(d && d->primes().size() == r.pr.size(), "node carries the requested elements");
    for (size_t i = 0; i < r.pr.size(); ++i) {
      size_t j = 0;
      while (j < r.pr.size() && !(d->primes()[j] == r.pr[i] && d->subs()[j] == r.su[i])) ++j;
      vp_assert(j < r.pr.size(), "node carries the requested elements");
      vp_log_eq(d->parameters()[j].parameter(), lg(r.w[i]), "node carries the requested parameters");
    }
  }
}
static void sequence(PsddManager *m, const std::vector<Req> &rs) {
  std::vector<PsddNode *> got;
  for (const Req &r : rs) {
    got.push_back(request(m, r));
    content(got.back(), r);
  }
  for (size_t i = 0; i < rs.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      if (eqContent(rs[i], rs[j])) {
        vp_assert(got[i] == got[j], "equal requests return the same node");
        vp_cover("shared");
      } else {
        vp_assert(got[i] != got[j], "different requests return different nodes");
        vp_assert(got[i]->node_index() != got[j]->node_index(), "different nodes have different identifiers");
        vp_cover("different");
      }
    }
  for (size_t i = 0; i < rs.size(); ++i) {
    content(got[i], rs[i]);
    vp_assert(request(m, rs[i]) == got[i], "a repeated request finds the node again");
  }
}
extern "C" void leaves() {
  vp_mode("real", 1);
  vp_mode("eqfork", 1 << 20);
  VT vt = mkVtree(varNames(2, 2), 0);
  PsddManager *m = mkManager(vt);
  double w[4] = {vp_real("a"), vp_real("b"), 0, 1};
  std::vector<Req> rs;
  int n = vp_tier() ? 3 : 2;
  for (int i = 0; i < n; ++i) {
    Req r;
    r.kind = vp_choice("kind", 2) ? 1 : 3;
    r.v = vt.vars[vp_choice("var", 2)];
    r.flag = vp_choice("flag", 2) * 3;
    if (r.kind == 1) r.v *= vp_choice("sign", 2) ? 1 : -1;
    else r.p = w[vp_choice("p", 4)], r.q = w[vp_choice("q", i < 2 ? 4 : 2)];
    rs.push_back(r);
  }
  rs.push_back(rs[0]);
  sequence(m, rs);
}
extern "C" void decisions() {
  vp_mode("real", 1);
  vp_mode("eqfork", 2);
  VT vt = mkVtree(varNames(3, 0), vp_choice("shape", 2));
  PsddManager *m = mkManager(vt);
  Vtree *root = m->vtree();
  SddLiteral L = vtree_util::LeftToRightLeafTraverse(sdd_vtree_left(root))[0], R = vtree_util::LeftToRightLeafTraverse(sdd_vtree_right(root))[0];
  double w[3] = {vp_real("a"), vp_real("b"), vp_real("c")};
  uintmax_t f = 1;
  auto raise = [&](Vtree *v, PsddNode *x) { return m->NormalizePsddNode(v, x, f); };
  PsddNode *pp = raise(sdd_vtree_left(root), m->GetPsddLiteralNode(L, f)), *pn = raise(sdd_vtree_left(root), m->GetPsddLiteralNode(-L, f));
  PsddNode *s[3] = {raise(sdd_vtree_right(root), m->GetPsddLiteralNode(R, f)), raise(sdd_vtree_right(root), m->GetPsddLiteralNode(-R, f)),
                    raise(sdd_vtree_right(root), m->GetPsddTopNode(R, f, par(w[0]), par(w[1])))};
  std::vector<Req> rs;
  int n = vp_tier() ? 3 : 2;
  for (int i = 0; i < n; ++i) {
    Req r;
    r.kind = 2;
    if (i && !vp_tier()) {
      // quick: the second request is the first one after one edit
      r = rs[0];
      int k = r.pr.size(), e = vp_choice("edit", 6), at = k > 1 ? vp_choice("at", 2) : 0;
      if (e == 1) r.flag = !r.flag;
      if (e == 2) std::reverse(r.pr.begin(), r.pr.end()), std::reverse(r.su.begin(), r.su.end()), std::reverse(r.w.begin(), r.w.end());
      if (e == 3) r.su[at] = s[vp_choice("sub", 3)];
      if (e == 4) r.w[at] = w[vp_choice("weight", 3)];
      if (e == 5) {
        if (k > 1) r.pr.erase(r.pr.begin() + at), r.su.erase(r.su.begin() + at), r.w.erase(r.w.begin() + at);
        else r.pr.push_back(r.pr[0] == pp ? pn : pp), r.su.push_back(s[vp_choice("sub", 3)]), r.w.push_back(w[1]);
      }
      rs.push_back(r);
      continue;
    }
    r.flag = vp_choice("flag", 2);
    int form = vp_choice("form", 4);         // both primes in either order, or one of them alone
    if (form != 2) r.pr.push_back(form == 1 ? pn : pp);
    if (form != 3) r.pr.push_back(form == 1 ? pp : pn);
    for (size_t j = 0; j < r.pr.size(); ++j) {
      r.su.push_back(s[vp_choice("sub", i == 0 ? 3 : 2) + (i == 1)]);
      r.w.push_back(w[(vp_choice("weight", 2) + i * j) % 3]);
    }
    rs.push_back(r);
  }
  rs.push_back(rs[0]);
  sequence(m, rs);
}
// many nodes at one position: whatever the order of the requests, each is found again
extern "C" void many() {
  vp_mode("real", 1);
  vp_mode("eqfork", 1);
  VT vt = mkVtree(varNames(2, 1), 0);
  PsddManager *m = mkManager(vt);
  double a = vp_real("a"), b = vp_real("b"), c = vp_real("c");
  PsddNode *x = m->GetPsddLiteralNode(1, 0), *nx = m->GetPsddLiteralNode(-1, 0), *y = m->GetPsddLiteralNode(2, 0), *ny = m->GetPsddLiteralNode(-2, 0);
  std::vector<Req> pool;
  auto dec = [&](std::vector<PsddNode *> p, std::vector<PsddNode *> s, std::vector<double> w, uintmax_t f) {
    Req r;
    r.kind = 2, r.flag = f, r.pr = p, r.su = s, r.w = w;
    pool.push_back(r);
  };
  auto top = [&](int v, double p, double q) {
    Req r;
    r.kind = 3, r.v = v, r.flag = 0, r.p = p, r.q = q;
    pool.push_back(r);
  };
  bool tops = vp_choice("tops", 2);
  if (tops) {
    top(1, a, b), top(1, b, a), top(1, a, c), top(1, c, b), top(1, 1, 0), top(1, 1, 1), top(2, a, b);
  } else {
    dec({x, nx}, {y, ny}, {a, b}, 0), dec({nx, x}, {y, ny}, {a, b}, 0), dec({x}, {y}, {a}, 0), dec({x, nx}, {y, y}, {a, b}, 0);
    dec({nx, x}, {ny, y}, {b, a}, 0), dec({x, nx}, {y, ny}, {c, b}, 0), dec({x, nx}, {y, ny}, {a, b}, 1);
  }
  // a symbolic order: start and stride through the pool
  std::vector<Req> rs;
  int n = pool.size(), at = vp_choice("start", n), st = 1 + vp_choice("stride", n - 1);
  for (int i = 0; i < n; ++i) rs.push_back(pool[(at + i * st) % n]);
  sequence(m, rs);
}
