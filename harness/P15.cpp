// P15: vtree utilities preserve structure and variables.
// The vtree primitives of libsdd are replaced by a small model (below) so that leaf labels can be symbols; the native
// replay uses the real library.
#include "common.h"
using namespace vph;
struct MV {
  MV *l = nullptr, *r = nullptr, *p = nullptr;
  SddLiteral var = 0, vars = -1, pos = -1;
  void *data = nullptr;
};
extern "C" {
Vtree *vp_override_new_leaf_vtree(SddLiteral v) {
  MV *x = new MV;
  x->var = v, x->vars = 1;
  return (Vtree *)x;
}
Vtree *vp_override_new_internal_vtree(Vtree *l, Vtree *r) {
  MV *x = new MV;
  x->l = (MV *)l, x->r = (MV *)r;
  x->l->p = x, x->r->p = x;
  x->vars = x->l->vars + x->r->vars;
  return (Vtree *)x;
}
static void mvProps(MV *x, SddLiteral *pos) {
  if (x->l) mvProps(x->l, pos);
  x->pos = (*pos)++;
  if (x->l) {
    mvProps(x->r, pos);
    x->vars = x->l->vars + x->r->vars;
  }
}
void vp_override_set_vtree_properties(Vtree *v) {
  SddLiteral p = 0;
  mvProps((MV *)v, &p);
}
Vtree *vp_override_sdd_vtree_left(const Vtree *v) { return (Vtree *)((MV *)v)->l; }
Vtree *vp_override_sdd_vtree_right(const Vtree *v) { return (Vtree *)((MV *)v)->r; }
Vtree *vp_override_sdd_vtree_parent(const Vtree *v) { return (Vtree *)((MV *)v)->p; }
int vp_override_sdd_vtree_is_leaf(const Vtree *v) { return ((MV *)v)->l == nullptr; }
SddLiteral vp_override_sdd_vtree_var(const Vtree *v) { return ((MV *)v)->var; }
SddLiteral vp_override_sdd_vtree_var_count(const Vtree *v) { return ((MV *)v)->vars; }
SddLiteral vp_override_sdd_vtree_position(const Vtree *v) { return ((MV *)v)->pos; }
void *vp_override_sdd_vtree_data(Vtree *v) { return ((MV *)v)->data; }
void vp_override_sdd_vtree_set_data(void *d, Vtree *v) { ((MV *)v)->data = d; }
}
// a picture of a tree taken before and compared after
struct Pic {
  std::vector<Vtree *> at, l, r, up;
  std::vector<SddLiteral> var, pos;
  void take(Vtree *v) {
    at.push_back(v), up.push_back(sdd_vtree_parent(v)), pos.push_back(sdd_vtree_position(v));
    bool leaf = sdd_vtree_is_leaf(v);
    l.push_back(leaf ? nullptr : sdd_vtree_left(v)), r.push_back(leaf ? nullptr : sdd_vtree_right(v)), var.push_back(leaf ? sdd_vtree_var(v) : 0);
    if (!leaf) take(sdd_vtree_left(v)), take(sdd_vtree_right(v));
  }
  bool same() const {
    for (size_t i = 0; i < at.size(); ++i) {
      Vtree *v = at[i];
      if (sdd_vtree_data(v) != nullptr || sdd_vtree_parent(v) != up[i] || sdd_vtree_position(v) != pos[i]) return false;
      if ((bool)sdd_vtree_is_leaf(v) != (l[i] == nullptr)) return false;
      if (l[i] ? (sdd_vtree_left(v) != l[i] || sdd_vtree_right(v) != r[i]) : sdd_vtree_var(v) != var[i]) return false;
    }
    return true;
  }
};
// a well formed tree: parents, positions in order, counts, no data, and no node of the original
static void wellFormed(Vtree *v, Vtree *up, SddLiteral *pos, const Pic &orig) {
  vp_assert(v != nullptr && sdd_vtree_parent(v) == up && sdd_vtree_data(v) == nullptr, "result: a proper tree without attached data");
  for (Vtree *x : orig.at) vp_assert(x != v, "result: independent of the input");
  if (!sdd_vtree_is_leaf(v)) wellFormed(sdd_vtree_left(v), v, pos, orig);
  vp_assert(sdd_vtree_position(v) == (*pos)++, "result: positions are in order");
  if (!sdd_vtree_is_leaf(v)) {
    wellFormed(sdd_vtree_right(v), v, pos, orig);
    vp_assert(sdd_vtree_var_count(v) == sdd_vtree_var_count(sdd_vtree_left(v)) + sdd_vtree_var_count(sdd_vtree_right(v)), "result: variable counts");
  } else vp_assert(sdd_vtree_var_count(v) == 1, "result: variable counts");
}
// the result must be the original restricted to the leaves with keep set, labels mapped by name[]
static Vtree *expectNode(Vtree *o, const std::map<Vtree *, SddLiteral> &name) {  // first original node below o that survives
  if (sdd_vtree_is_leaf(o)) return name.count(o) ? o : nullptr;
  Vtree *a = expectNode(sdd_vtree_left(o), name), *b = expectNode(sdd_vtree_right(o), name);
  return a && b ? o : a ? a : b;
}
static void match(Vtree *o, Vtree *n, const std::map<Vtree *, SddLiteral> &name, const char *label) {
  o = expectNode(o, name);
  vp_assert((bool)sdd_vtree_is_leaf(o) == (bool)sdd_vtree_is_leaf(n), label);
  if (sdd_vtree_is_leaf(o)) vp_assert(sdd_vtree_var(n) == name.at(o), label);
  else match(sdd_vtree_left(o), sdd_vtree_left(n), name, label), match(sdd_vtree_right(o), sdd_vtree_right(n), name, label);
}
static std::vector<Vtree *> leaves(Vtree *v) {
  if (sdd_vtree_is_leaf(v)) return {v};
  std::vector<Vtree *> a = leaves(sdd_vtree_left(v)), b = leaves(sdd_vtree_right(v));
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static int size(int lo) { return lo + vp_choice("n", (vp_tier() ? 7 : 6) - lo); }
// labels are symbols: listings and copies
extern "C" void copies() {
  int n = size(1), sh = vp_choice("shape", nShapes[n]);
  std::vector<SddLiteral> lab;
  for (int i = 0; i < n; ++i) {
    lab.push_back(vp_bits("label", 16));
    vp_assume(lab[i] > 0);
    for (int j = 0; j < i; ++j) vp_assume(lab[i] != lab[j]);
  }
  VT vt = mkVtree(lab, sh);
  Pic pic;
  pic.take(vt.root);
  std::vector<SddLiteral> order = vtree_util::LeftToRightLeafTraverse(vt.root);
  vp_assert(order.size() == (size_t)n, "leaf listing: every variable once, left to right");
  for (int i = 0; i < n; ++i) vp_assert(order[i] == lab[i], "leaf listing: every variable once, left to right");
  std::vector<Vtree *> lv = leaves(vt.root), list = vtree_util::SerializeVtree(vt.root);
  vp_assert(list.size() == pic.at.size() && list[0] == vt.root, "node listing: every node once, parents first");
  std::set<Vtree *> seen;
  for (Vtree *x : list) {
    vp_assert(seen.insert(x).second, "node listing: every node once, parents first");
    vp_assert(x == vt.root || seen.count(sdd_vtree_parent(x)), "node listing: every node once, parents first");
  }
  for (Vtree *x : pic.at) vp_assert(seen.count(x), "node listing: every node once, parents first");
  std::vector<SddLiteral> vars = vtree_util::VariablesUnderVtree(vt.root);
  vp_assert(vars.size() == (size_t)n, "variable listing: every variable once");
  for (int i = 0; i < n; ++i) {
    int c = 0;
    for (SddLiteral v : vars) c += v == lab[i];
    vp_assert(c == 1, "variable listing: every variable once");
  }
  // copy of the tree or of a part of it
  Vtree *at = pic.at[vp_choice("at", 2 * n - 1)];
  Vtree *c = vtree_util::CopyVtree(at);
  SddLiteral pos = 0;
  wellFormed(c, nullptr, &pos, pic);
  std::map<Vtree *, SddLiteral> name;
  for (int i = 0; i < n; ++i) name[lv[i]] = lab[i];
  match(at, c, name, "copy: same shape and variables");
  vp_assert(pic.same(), "copy: the input is unchanged");
  vp_cover("copied");
}
extern "C" void renamed() {
  int n = size(1), sh = vp_choice("shape", nShapes[n]);
  VT vt = mkVtree(varNames(n, vp_choice("names", 3)), sh);
  Pic pic;
  pic.take(vt.root);
  std::vector<Vtree *> lv = leaves(vt.root);
  // the new names are symbols: any one-to-one renaming, possibly onto names already used
  std::unordered_map<SddLiteral, SddLiteral> map;
  std::map<Vtree *, SddLiteral> name;
  std::vector<SddLiteral> to;
  for (int i = 0; i < n; ++i) {
    to.push_back(vp_bits("to", 16));
    vp_assume(to[i] > 0);
    for (int j = 0; j < i; ++j) vp_assume(to[i] != to[j]);
    map[vt.vars[i]] = to[i], name[lv[i]] = to[i];
  }
  map[99] = 1;
  Vtree *at = pic.at[vp_choice("at", 2 * n - 1)];
  Vtree *c = vtree_util::CopyVtree(at, map);
  SddLiteral pos = 0;
  wellFormed(c, nullptr, &pos, pic);
  match(at, c, name, "renaming copy: same shape, mapped variables");
  vp_assert(pic.same(), "renaming copy: the input is unchanged");
  vp_cover("renamed");
}
extern "C" void projected() {
  int n = size(1), sh = vp_choice("shape", nShapes[n]);
  VT vt = mkVtree(varNames(n, sh % 3), sh);
  Pic pic;
  pic.take(vt.root);
  std::vector<Vtree *> lv = leaves(vt.root);
  uint64_t keep = vp_bits("keep", n);
  vp_assume(keep != 0);
  std::vector<SddLiteral> vars;
  std::map<Vtree *, SddLiteral> name;
  bool back = vp_choice("order", 2);
  if (back) vars.push_back(77);              // a variable the vtree does not have
  for (int i = 0; i < n; ++i)
    if (keep >> i & 1) {
      vars.insert(back ? vars.begin() : vars.end(), vt.vars[i]);
      name[lv[i]] = vt.vars[i];
    }
  if (back) vars.push_back(vars[0]);         // named twice
  Vtree *c = vtree_util::ProjectVtree(vt.root, vars);
  SddLiteral pos = 0;
  wellFormed(c, nullptr, &pos, pic);
  match(vt.root, c, name, "projection: exactly the requested variables in their relative structure");
  vp_assert(pic.same(), "projection: the input is unchanged");
  vp_cover("projected");
}
extern "C" void looked() {
  int n = size(1), sh = vp_choice("shape", nShapes[n]);
  VT vt = mkVtree(varNames(n, sh % 3), sh);
  Pic pic;
  pic.take(vt.root);
  uint64_t want = vp_bits("want", n), foreign = vp_bits("foreign", 1);
  std::unordered_set<SddLiteral> vars;
  uint64_t w = 0;
  for (int i = 0; i < n; ++i)
    if (want >> i & 1) vars.insert(vt.vars[i]), w |= 1ull << i;
  if (foreign) vars.insert(77), w |= 1ull << n;
  Vtree *x = vtree_util::SubVtreeByVariables(vt.root, vars);
  Vtree *exp = nullptr;
  for (Vtree *y : pic.at) {
    uint64_t m = 0;
    for (Vtree *l : leaves(y))
      for (int i = 0; i < n; ++i)
        if (sdd_vtree_var(l) == vt.vars[i]) m |= 1ull << i;
    if (m == w) exp = y;
  }
  vp_assert(x == exp, "lookup: the node with exactly the requested variables or nothing");
  vp_assert(pic.same(), "lookup: the input is unchanged");
  vp_cover(exp ? "found" : "none");
}
