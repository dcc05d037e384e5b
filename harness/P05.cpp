// P05: model counting and the consistency tests agree with the support.
#include "common.h"
using namespace vph;
static bool truth(Asg known, Asg val, uint64_t s, int n) {
  for (Asg a = 0; a < (1u << n); ++a)
    if ((s >> a & 1) && (a & known) == (val & known)) return true;
  return false;
}
struct Made { VT vt; PsddManager *m; Ref *r; };
static Made make(int n, int sh, int style, uint64_t s, int names) {
  Made d;
  d.vt = mkVtree(varNames(n, names), sh);
  d.m = mkManager(d.vt);
  Builder b(d.m, d.vt.vars);
  b.style = style;
  d.r = b.build(d.m->vtree(), table(s, n));
  return d;
}
static void count(PsddNode *r, uint64_t want) {
  mpz_class c = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(r));
  vp_assert(cmp(c, (unsigned long)want) == 0, "ModelCount: number of supported worlds");
}
extern "C" void tests() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", supportCount(n)), s = support(n, k);
  Made d = make(n, sh, (k + sh) % 3, s, k & 1);
  count(d.r->node, __builtin_popcountll(s));
  int q = vp_tier() ? vp_choice("query", 5) : (int)((k + vp_choice("query", 2) * 2 + sh) % 5);
  Bits mask, inst;
  uint64_t noise = vp_bits("inst", 64);
  ((uint64_t *)&inst)[0] = noise;
  if (q == 0) {  // complete assignment
    bool got = d.r->node->IsConsistent(inst, 6 + vp_choice("extra", 2));
    Asg a = 0;
    for (int i = 0; i < n; ++i)
      if (inst[d.vt.vars[i]]) a |= 1u << i;
    (void)got;
    vp_assert(got == (bool)(s >> a & 1), "IsConsistent(complete): exactly the support");
    vp_cover("complete");
    return;
  }
  if (q == 1) {  // partial assignment given as a map
    std::unordered_map<uint32_t, bool> pm;
    Asg known = vp_choice("known", 1u << n), val = 0;
    for (int i = 0; i < n; ++i)
      if (known >> i & 1) {
        bool v = inst[d.vt.vars[i]];
        pm[d.vt.vars[i]] = v;
        if (v) val |= 1u << i;
      }
    pm[40] = true;  // a variable the PSDD does not mention
    bool got = d.r->node->IsConsistent(pm);
    vp_assert(got == truth(known, val, s, n), "IsConsistent(map): some supported world agrees");
    vp_cover("map");
    return;
  }
  uint64_t mw = vp_bits("mask", 64);
  ((uint64_t *)&mask)[0] = mw;
  bool got;
  if (q == 2) got = psdd_node_util::IsConsistent(d.r->node, mask, inst);
  else if (q == 3) got = psdd_node_util::IsConsistent(psdd_node_util::SerializePsddNodes(d.r->node), mask, inst);
  else {
    psdd_node_util::SetActivationFlag(inst, psdd_node_util::SerializePsddNodes(d.r->node));
    got = d.r->node->activation_flag();
    Asg a = 0;
    for (int i = 0; i < n; ++i)
      if (inst[d.vt.vars[i]]) a |= 1u << i;
    vp_assert(got == (bool)(s >> a & 1), "SetActivationFlag: root active exactly on the support");
    for (PsddNode *x : psdd_node_util::SerializePsddNodes(d.r->node)) {
      vp_assert(x->activation_flag() == nodeSupport(x, asgMap(d.vt.vars, a)), "SetActivationFlag: every node active exactly when the world is in its support");
    }
    vp_cover("activation");
    return;
  }
  Asg known = 0, val = 0;
  for (int i = 0; i < n; ++i)
    if (mask[d.vt.vars[i]]) {
      known |= 1u << i;
      if (inst[d.vt.vars[i]]) val |= 1u << i;
    }
  vp_assert(got == truth(known, val, s, n), "IsConsistent(mask): some supported world agrees");
  if (q == 2) {
    bool again = psdd_node_util::IsConsistent(d.r->node, mask, inst);
    vp_assert(again == got, "IsConsistent(mask): the same question gets the same answer");
  }
  vp_cover("mask");
}
extern "C" void four() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 5);
  uint64_t k = vp_choice("support", vp_tier() ? 32 : 8);
  uint64_t s = support(4, vp_tier() ? k : 4 * k + sh % 4);
  Made d = make(4, sh, k % 3, s, 2);
  count(d.r->node, __builtin_popcountll(s));
  Bits mask, inst;
  Asg known = 0, val = 0;
  uint64_t kb = vp_bits("known", 4), vb = vp_bits("value", 4);
  for (int i = 0; i < 4; ++i) {
    mask[d.vt.vars[i]] = kb >> i & 1;
    inst[d.vt.vars[i]] = vb >> i & 1;
  }
  bool got = psdd_node_util::IsConsistent(d.r->node, mask, inst);
  for (int i = 0; i < 4; ++i)
    if (kb >> i & 1) {
      known |= 1u << i;
      if (vb >> i & 1) val |= 1u << i;
    }
  vp_assert(got == truth(known, val, s, 4), "IsConsistent(mask): some supported world agrees");
}
// counts beyond machine integers
extern "C" void large() {
  vp_mode("real", 1);
  static const int N[] = {31, 32, 33, 63, 64, 65, 70, 130};
  int n = N[vp_choice("n", 8)];
  Vtree *v = sdd_vtree_new(n, vp_choice("balanced", 2) ? "balanced" : "right");
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  PsddNode *t = m->GetTrueNode(m->vtree(), 0);
  mpz_class c = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(t)), w = 1;
  w <<= n;
  vp_assert(c == w, "ModelCount: 2^n worlds for the unconstrained PSDD");
  // x1 fixed and equal to the last variable: 2^(n-2)
  PsddNode *one = m->NormalizePsddNode(m->vtree(), m->GetPsddLiteralNode(n, 0), 0);
  PsddNode *two = m->NormalizePsddNode(m->vtree(), m->GetPsddLiteralNode(-1, 0), 0);
  auto pr = m->Multiply(one, two, 0);
  c = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(pr.first));
  w = 1;
  w <<= n - 2;
  vp_assert(c == w, "ModelCount: 2^(n-2) worlds with two variables fixed");
  vp_cover("large");
}
// several questions about the same PSDD, one after the other
enum { MASK, LIST, MAP, COMPLETE, ACTIVATION };
static bool ask(const Made &d, int n, int kind, int vary, bool *want, uint64_t s) {
  Bits mask, inst;
  Asg known = (1u << n) - 1, val = 0;
  if (kind < 3) known = vary ? vp_bits("known", n) : (known & ~(1u << (kind % n)));
  uint64_t vb;
  if (vary || vp_tier()) vb = vp_bits("value", n);
  else {                                     // one world, inside or outside of the support
    bool in = vp_choice("inside", 2);
    for (vb = 0; vb < (1u << n) - 1 && (bool)(s >> vb & 1) != in;) ++vb;
  }
  for (int i = 0; i < n; ++i) {
    mask[d.vt.vars[i]] = known >> i & 1;
    inst[d.vt.vars[i]] = vb >> i & 1;
  }
  PsddNode *r = d.r->node;
  bool got;
  if (kind == 0) got = psdd_node_util::IsConsistent(r, mask, inst);
  else if (kind == 1) got = psdd_node_util::IsConsistent(psdd_node_util::SerializePsddNodes(r), mask, inst);
  else if (kind == 2) {
    std::unordered_map<uint32_t, bool> pm;
    for (int i = 0; i < n; ++i)
      if (known >> i & 1) pm[d.vt.vars[i]] = vb >> i & 1;
    got = r->IsConsistent(pm);
  } else if (kind == 3) got = r->IsConsistent(inst, 7);
  else {
    std::vector<PsddNode *> all = psdd_node_util::SerializePsddNodes(r);
    psdd_node_util::SetActivationFlag(inst, all);
    got = r->activation_flag();
    for (PsddNode *x : all) x->ResetActivationFlag();
  }
  for (int i = 0; i < n; ++i)
    if ((known >> i & 1) && (vb >> i & 1)) val |= 1u << i;
  *want = truth(known, val, s, n);
  return got;
}
extern "C" void sequence() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t kk = n < 3 ? supportCount(n) : vp_tier() ? 85 : 5;
  uint64_t k = vp_choice("support", kk);
  uint64_t s = support(n, n < 3 ? k : vp_tier() ? 3 * k + sh : (k * 37 + 11 * sh) % 255);
  Made d = make(n, sh, (k + sh) % 3, s, 1);
  int q1 = vp_choice("first", 5), q2 = vp_tier() ? vp_choice("second", 5) : (int)((q1 + k + vp_choice("second", 2)) % 3);
  bool want, got = ask(d, n, q1, 0, &want, s);
  vp_assert(got == want, "sequence: first question");
  got = ask(d, n, q2, 1, &want, s);
  vp_assert(got == want, "sequence: second question on the same nodes");
  if (vp_tier()) {
    got = ask(d, n, q1, 1, &want, s);
    vp_assert(got == want, "sequence: third question on the same nodes");
  }
  vp_cover("sequence");
}
// decision nodes of several elements whose primes and subs count beyond machine integers
extern "C" void wide() {
  vp_mode("real", 1);
  static const int A[] = {1, 2, 33, 64, 65, 100};
  int a = A[vp_choice("left", 6)], b = A[vp_choice("right", 6)];
  bool swap = vp_choice("swap", 2);
  int shp = vp_choice("balanced", 2);
  auto line = [&](int from, int to) {
    Vtree *v;
    if (shp) {
      std::vector<Vtree *> q;
      for (int i = from; i <= to; ++i) q.push_back(new_leaf_vtree(i));
      while (q.size() > 1) {
        std::vector<Vtree *> r;
        for (size_t i = 0; i + 1 < q.size(); i += 2) r.push_back(new_internal_vtree(q[i], q[i + 1]));
        if (q.size() % 2) r.push_back(q.back());
        q = r;
      }
      v = q[0];
    } else {
      v = new_leaf_vtree(to);
      for (int i = to - 1; i >= from; --i) v = new_internal_vtree(new_leaf_vtree(i), v);
    }
    return v;
  };
  Vtree *root = new_internal_vtree(line(1, a), line(a + 1, a + b));
  set_vtree_properties(root);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(root);
  Vtree *l = sdd_vtree_left(m->vtree()), *r = sdd_vtree_right(m->vtree());
  auto lit = [&](Vtree *v, int x) { return m->NormalizePsddNode(v, m->GetPsddLiteralNode(x, 0), 0); };
  std::vector<PsddNode *> p = {lit(l, a), lit(l, -a)}, s = {m->GetTrueNode(r, 0), lit(r, -(a + b))};
  if (swap) std::swap(s[0], s[1]);
  PsddParameter half = PsddParameter::CreateFromDecimal(0.5);
  PsddNode *x = m->GetConformedPsddDecisionNode(p, s, {half, half}, 0);
  mpz_class c = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(x)), w = 3;
  w <<= a - 1 + b - 1;
  vp_assert(c == w, "ModelCount: worlds of a node of two elements");
  // the same below another node: (x and the next) or (not x and everything)
  p = {lit(l, a), lit(l, -a)};
  if (a + b < 130) {
    Vtree *up = new_internal_vtree(line(1, a + b), line(a + b + 1, a + b + 2));
    set_vtree_properties(up);
    PsddManager *m2 = PsddManager::GetPsddManagerFromVtree(up);
    Vtree *ul = sdd_vtree_left(m2->vtree()), *ur = sdd_vtree_right(m2->vtree());
    auto lit2 = [&](Vtree *v, int y) { return m2->NormalizePsddNode(v, m2->GetPsddLiteralNode(y, 0), 0); };
    PsddNode *pos = lit2(ul, 1), *neg = lit2(ul, -1);
    std::vector<PsddNode *> s2 = {m2->GetTrueNode(ur, 0), lit2(ur, a + b + 2)};
    if (swap) std::swap(s2[0], s2[1]);
    PsddNode *y = m2->GetConformedPsddDecisionNode({pos, neg}, s2, {half, half}, 0);
    c = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(y));
    w = 6;
    w <<= a + b - 1;
    vp_assert(c == w, "ModelCount: worlds of a node of two elements");
  }
  vp_cover("wide");
}
// parameters that coincide, nodes of different flags: they do not matter to these questions
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 || vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 17 * vp_choice("support", 12), s = support(n, k);
  Made d = make(n, sh, k % 3, s, 1);
  bool want, got = ask(d, n, vp_choice("question", 5), 0, &want, s);
  vp_assert(got == want, "coincide: the question");
  count(d.r->node, __builtin_popcountll(s));
}
