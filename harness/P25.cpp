// P25: queries leave a PSDD unchanged and are repeatable in any order.
#include "common.h"
using namespace vph;
struct Answers {                             // what one query returned, in comparable form
  std::vector<double> d;
  std::vector<int64_t> i;
  std::vector<const void *> p;
};
static bool same(const Answers &a, const Answers &b) {
  if (a.i != b.i || a.p != b.p || a.d.size() != b.d.size()) return false;
  for (size_t k = 0; k < a.d.size(); ++k)
    if (!sameD(a.d[k], b.d[k])) return false;
  return true;
}
struct World {
  VT vt;
  PsddManager *m, *other;
  SddManager *sm = nullptr;
  Ref *r1, *r2;
  std::unordered_map<SddLiteral, SddLiteral> ren;
  int known, val;
};
static const int NQ = 13;
static void fresh(PsddNode *x) {             // what a query makes is as unmarked as what it reads
  if (x == nullptr) return;
  Snap sn;
  sn.add(x);
  vp_assert(sn.clean(), "queries: no scratch data or marks left on the result");
}
static Answers ask(World &w, int q) {
  Answers o;
  int n = w.vt.vars.size();
  PsddNode *r = w.r1->node;
  auto ser = psdd_node_util::SerializePsddNodes(r);
  Bits mask, inst;
  std::unordered_map<uint32_t, bool> pm;
  for (int i = 0; i < n; ++i) {
    mask[w.vt.vars[i]] = w.known >> i & 1;
    inst[w.vt.vars[i]] = w.val >> i & 1;
    if (w.known >> i & 1) pm[w.vt.vars[i]] = w.val >> i & 1;
  }
  switch (q) {
    case 0: o.d.push_back(psdd_node_util::Evaluate(mask, inst, r).parameter()); break;
    case 1: o.d.push_back(psdd_node_util::Evaluate(mask, inst, ser).parameter()); break;
    case 2: o.i.push_back(psdd_node_util::IsConsistent(r, mask, inst)); break;
    case 3: o.i.push_back(r->IsConsistent(pm)); break;
    case 4: o.i.push_back(r->IsConsistent(inst, 6)); break;
    case 5: o.i.push_back(psdd_node_util::ModelCount(ser).get_si()); break;
    case 6: {
      auto x = psdd_node_util::GetMPESolution(ser);
      o.d.push_back(x.second.parameter());
      for (int i = 0; i < n; ++i) o.i.push_back(x.first[w.vt.vars[i]]);
      break;
    }
    case 7: {
      auto x = psdd_node_util::GetMarginals(ser);
      for (int i = 0; i < n; ++i) {
        auto it = x.find(w.vt.vars[i]);
        o.i.push_back(it != x.end());
        if (it != x.end()) {
          o.d.push_back(it->second.first.parameter());
          o.d.push_back(it->second.second.parameter());
        }
      }
      break;
    }
    case 8: {
      SddNode *s = psdd_node_util::ConvertPsddNodeToSddNode(ser, w.ren, w.sm);
      o.p.push_back(s);
      break;
    }
    case 9: o.i.push_back(psdd_node_util::GetPsddSize(r)); break;
    case 10: {
      auto x = w.m->Multiply(r, w.r2->node, 7);
      fresh(x.first);
      o.p.push_back(x.first);
      o.d.push_back(x.second.parameter());
      break;
    }
    case 11: {
      PsddNode *x = w.other->LoadPsddNode(w.other->vtree(), r, 3);
      fresh(x);
      o.p.push_back(x);
      break;
    }
    case 12: {
      const char *f = vp_tmp();
      psdd_node_util::WritePsddToFile(r, f);
      vp_unlink(f);
      break;
    }
  }
  return o;
}
static World make(int n, int sh, uint64_t s1, uint64_t s2, int style) {
  World w;
  w.vt = mkVtree(varNames(n, 0), sh);
  w.m = mkManager(w.vt);
  w.other = mkManager(w.vt);
  Builder b(w.m, w.vt.vars);
  b.style = style;
  w.r1 = b.build(w.m->vtree(), table(s1, n));
  w.r2 = b.build(w.m->vtree(), table(s2, n));  // shares nodes with r1 unless style 1
  Vtree *sv = sdd_vtree_new(n, "balanced");
  w.sm = sdd_manager_new(sv);
  for (int i = 0; i < n; ++i) w.ren[w.vt.vars[i]] = n - i;
  w.known = 0, w.val = 0;
  return w;
}
static void sequence(World &w, const std::vector<int> &qs) {
  Snap sn;
  sn.add(w.r1->node);
  sn.add(w.r2->node);
  std::map<int, Answers> first;
  for (int q : qs) {
    Answers a = ask(w, q);
    vp_assert(sn.same(), "queries: parameters and structure unchanged");
    vp_assert(sn.clean(), "queries: no scratch data or marks left");
    vp_assert(vtreeClean(w.m->vtree()), "queries: no scratch data left on the vtree");
    auto it = first.find(q);
    if (it == first.end()) first[q] = a;
    else {
      vp_assert(same(it->second, a), "queries: the same question gets the same answer");
      vp_cover("repeated");
    }
  }
}
// every query, then every other query, then the first again
extern "C" void pairs() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  static const uint64_t F[] = {0x96, 0xff, 0xe8, 0x41};
  int q1 = vp_choice("q1", NQ), q2 = vp_choice("q2", NQ);
  int k = vp_tier() ? vp_choice("support", 4) : (q1 + q2 + sh) % 3;
  uint64_t mask = (1ull << (1u << n)) - 1, s1 = F[k] & mask, s2 = F[(k + 1) % 4] & mask;
  World w = make(n, sh, s1 ? s1 : 3, s2 ? s2 : 5, k % 2);
  w.known = (vp_tier() ? vp_choice("known", 3) : q1 % 3) * 3 & ((1 << n) - 1), w.val = 2;
  sequence(w, {q1, q2, q1, q2});
}
// the same over parameters that coincide and nodes of different flags
extern "C" void coincide() {
  vp_mode("real", 1);
  gTie = 1 + vp_choice("tie", 3), gMixed = vp_choice("mixed", 2);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n == 1 ? vp_choice("support", 3) : 254 - 17 * vp_choice("support", vp_tier() ? 12 : 3);
  uint64_t mask = (1ull << (1u << n)) - 1, s1 = (k + 1) & mask, s2 = (k * 5 + 2) & mask;
  World w = make(n, sh, s1 ? s1 : 3, s2 ? s2 : 1, k % 2);
  int q = vp_choice("query", NQ);
  w.known = vp_choice("known", 1 << n), w.val = 1;
  sequence(w, {q, q});
}
// symbolic evidence: whatever it is, a consistency or evaluation query leaves no trace
extern "C" void evidence() {
  vp_mode("real", 1);
  int n = 3, sh = vp_choice("shape", nShapes[n]);
  uint64_t k = vp_choice("support", vp_tier() ? 255 : 32), s = vp_tier() ? k + 1 : 8 * k + 5;
  World w = make(n, sh, s, 256 - s, k % 3);
  Snap sn;
  sn.add(w.r1->node);
  sn.add(w.r2->node);
  Bits mask, inst;
  uint64_t a = vp_bits("mask", 64), b = vp_bits("inst", 64);
  ((uint64_t *)&mask)[0] = a;
  ((uint64_t *)&inst)[0] = b;
  bool cons = vp_choice("query", 2);
  if (cons) {
    bool x = psdd_node_util::IsConsistent(w.r1->node, mask, inst);
    bool y = psdd_node_util::IsConsistent(w.r1->node, mask, inst);
    vp_assert(x == y, "queries: the same question gets the same answer");
  } else {
    double x = psdd_node_util::Evaluate(mask, inst, w.r1->node).parameter();
    double y = psdd_node_util::Evaluate(mask, inst, w.r1->node).parameter();
    vp_assert(sameD(x, y), "queries: the same question gets the same answer");
  }
  vp_assert(sn.same(), "queries: parameters and structure unchanged");
  vp_assert(sn.clean(), "queries: no scratch data or marks left");
}
