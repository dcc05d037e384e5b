// P31: node records and the node table keep exactly what they were given.
#include "common.h"
#include <psdd/psdd_unique_table.h>
using namespace vph;
static PsddParameter par(double w) { return PsddParameter::CreateFromDecimal(w); }
static void blank(PsddNode *x) {
  vp_assert(x->user_data() == 0 && !x->activation_flag(), "record: starts without scratch data");
  vp_assert(x->batched_psdd_value().empty() && x->batched_psdd_context_value().empty(), "record: starts without scratch data");
}
static void base(PsddNode *x, uintmax_t id, Vtree *v, uintmax_t flag, int type) {
  vp_assert(x->node_index() == id, "record: carries the given identifier");
  vp_assert(x->vtree_node() == v, "record: carries the given vtree position");
  vp_assert(x->flag_index() == flag, "record: carries the given flag");
  vp_assert(x->node_type() == type, "record: has its type");
  vp_assert((x->psdd_literal_node() == x) == (type == 1) && (x->psdd_decision_node() == x) == (type == 2) && (x->psdd_top_node() == x) == (type == 3), "record: has its type");
  blank(x);
}
// every constructor, symbolic identifiers, flags and literals
extern "C" void records() {
  VT vt = mkVtree({1, 2}, 0);
  Vtree *v = sdd_vtree_left(vt.root);
  uintmax_t id = vp_bits("id", 64), at = id, flag = vp_bits("flag", 64);
  uint32_t var = 1 + vp_bits("var", 30);
  int32_t lit = vp_choice("sign", 2) ? (int32_t)var : -(int32_t)var;
  int way = vp_choice("way", 3);
  uintmax_t fl = way == 2 ? 0 : flag;
  switch (vp_choice("kind", 3)) {
    case 0: {
      PsddLiteralNode *x = way == 0 ? new PsddLiteralNode(id, v, flag, lit) : way == 1 ? new PsddLiteralNode(&at, v, flag, lit) : new PsddLiteralNode(&at, v, lit);
      base(x, id, v, fl, 1);
      vp_assert(x->literal() == lit, "record: carries the given literal");
      vp_assert(x->variable_index() == var && x->sign() == (lit > 0), "record: variable and sign of the literal");
      x->ResetDataCount();
      base(x, id, v, fl, 1);
      vp_cover("literal");
      break;
    }
    case 1: {
      PsddTopNode *x = way == 0 ? new PsddTopNode(id, v, flag, var, par(0.25), par(3)) : way == 1 ? new PsddTopNode(&at, v, flag, var) : new PsddTopNode(&at, v, var);
      base(x, id, v, fl, 3);
      vp_assert(x->variable_index() == var, "record: carries the given variable");
      if (way == 0) vp_assert(x->true_parameter().parameter() == std::log(0.25) && x->false_parameter().parameter() == std::log(3.0), "record: carries the given parameters");
      vp_assert(x->true_data_count() == 0 && x->false_data_count() == 0, "record: counters start at zero");
      uintmax_t a = vp_bits("a", 62), b = vp_bits("b", 62), c = vp_bits("c", 62);
      x->IncrementTrueDataCount(a);
      vp_assert(x->true_data_count() == a && x->false_data_count() == 0, "record: counts go to their branch");
      x->IncrementFalseDataCount(b);
      x->IncrementTrueDataCount(c);
      vp_assert(x->true_data_count() == a + c && x->false_data_count() == b, "record: counts add up");
      base(x, id, v, fl, 3);
      x->ResetDataCount();
      vp_assert(x->true_data_count() == 0 && x->false_data_count() == 0, "record: counters are cleared");
      vp_assert(x->variable_index() == var, "record: carries the given variable");
      vp_cover("top");
      break;
    }
    case 2: {
      int n = 1 + vp_choice("elements", 3);
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      static const int ids[3][3] = {{3, 4, 5}, {5, 4, 3}, {4, 5, 3}};
      int order = vp_choice("order", 3);
      for (int i = 0; i < n; ++i) {
        p.push_back(new PsddLiteralNode((uintmax_t)ids[order][i], v, 0, 1));
        s.push_back(new PsddLiteralNode((uintmax_t)8 - i, sdd_vtree_right(vt.root), 0, 2));
        w.push_back(par(i + 1));
      }
      PsddDecisionNode *x = way == 0 ? new PsddDecisionNode(id, vt.root, flag, p, s, w) : way == 1 ? new PsddDecisionNode(&at, vt.root, flag, p, s) : new PsddDecisionNode(&at, vt.root, p, s);
      base(x, id, vt.root, fl, 2);
      vp_assert((int)x->primes().size() == n && (int)x->subs().size() == n && (int)x->parameters().size() == n && (int)x->data_counts().size() == n, "record: carries the given elements");
      for (int i = 0; i < n; ++i) {
        int j = 0;
        while (j < n && x->primes()[j] != p[i]) ++j;
        vp_assert(j < n && x->subs()[j] == s[i], "record: carries the given elements");
        if (way == 0) vp_assert(x->parameters()[j].parameter() == std::log(i + 1.0), "record: carries the given parameters");
      }
      std::vector<uintmax_t> want(n, 0);
      for (int k = 0; k < 3; ++k) {
        int e = vp_choice("branch", n);
        uintmax_t c = vp_bits("count", 62);
        x->IncrementDataCount(e, c);
        want[e] += c;
        for (int i = 0; i < n; ++i) vp_assert(x->data_counts()[i] == want[i], "record: counts go to their branch");
      }
      x->ResetDataCount();
      for (int i = 0; i < n; ++i) vp_assert(x->data_counts()[i] == 0, "record: counters are cleared");
      base(x, id, vt.root, fl, 2);
      vp_cover("decision");
      break;
    }
  }
  vp_assert(at == id + (way ? 1 : 0), "record: a counter advances by exactly one");
}
// comparison and hash
extern "C" void compare() {
  VT vt = mkVtree({1, 2}, 0);
  Vtree *v = sdd_vtree_left(vt.root);
  uintmax_t fa = vp_bits("fa", 64), fb = vp_bits("fb", 64);
  static const double W[] = {0.25, 0.75, 0};
  switch (vp_choice("kind", 3)) {
    case 0: {
      int32_t la = 1 + vp_bits("la", 30), lb = 1 + vp_bits("lb", 30);
      if (vp_choice("na", 2)) la = -la;
      if (vp_choice("nb", 2)) lb = -lb;
      PsddLiteralNode a((uintmax_t)1, v, fa, la), b((uintmax_t)2, v, fb, lb);
      bool eq = a == b, want = (la == lb) & (fa == fb);
      vp_assert(eq == want, "comparison: literals are equal exactly when literal and flag are");
      vp_assert((b == a) == want, "comparison: in both directions");
      if (eq) {
        vp_assert(a.hash_value() == b.hash_value(), "comparison: equal nodes hash alike");
        vp_cover("equal");
      }
      break;
    }
    case 1: {
      uint32_t va = vp_bits("va", 32), vb = vp_bits("vb", 32);
      int pa = vp_choice("pa", 3), qa = vp_choice("qa", 3), pb = vp_choice("pb", 3), qb = vp_choice("qb", 3);
      PsddTopNode a((uintmax_t)1, v, fa, va, par(W[pa]), par(W[qa])), b((uintmax_t)2, v, fb, vb, par(W[pb]), par(W[qb]));
      bool eq = a == b, want = (va == vb) & (fa == fb) & (pa == pb) & (qa == qb);
      vp_assert(eq == want, "comparison: top nodes are equal exactly when variable, parameters and flag are");
      vp_assert((b == a) == want, "comparison: in both directions");
      if (eq) {
        vp_assert(a.hash_value() == b.hash_value(), "comparison: equal nodes hash alike");
        vp_cover("equal");
      }
      break;
    }
    case 2: {
      std::vector<PsddNode *> pool;
      for (int i = 0; i < 3; ++i) pool.push_back(new PsddLiteralNode((uintmax_t)10 + i, v, 0, i + 1));
      struct E {
        int p, s, w;
      };
      std::vector<E> ea, eb;
      int na = 1 + vp_choice("na", 2), nb = 1 + vp_choice("nb", 2);
      for (int i = 0; i < na; ++i) {
        int s = vp_choice("s", 2), w = vp_choice("w", 2);
        ea.push_back({i, s, w});
      }
      bool turn = vp_choice("turn", 2);
      for (int i = 0; i < nb; ++i) {
        int s = vp_choice("s", 2), w = vp_choice("w", 2);
        eb.push_back({turn ? nb - 1 - i : i, s, w});
      }
      auto mk = [&](const std::vector<E> &es, uintmax_t id, uintmax_t f) {
        std::vector<PsddNode *> p, s;
        std::vector<PsddParameter> w;
        for (const E &e : es) p.push_back(pool[e.p]), s.push_back(pool[e.s]), w.push_back(par(W[e.w]));
        return new PsddDecisionNode(id, vt.root, f, p, s, w);
      };
      PsddDecisionNode *a = mk(ea, 1, fa), *b = mk(eb, 2, fb);
      bool same = na == nb;
      for (int i = 0; i < na && same; ++i) {
        const E &o = turn ? eb[nb - 1 - i] : eb[i];
        same = o.s == ea[i].s && o.w == ea[i].w;
      }
      bool eq = *a == *b, want = same & (fa == fb);
      vp_assert(eq == want, "comparison: decision nodes are equal exactly when elements and flag are");
      vp_assert((*b == *a) == want, "comparison: in both directions");
      if (eq) {
        vp_assert(a->hash_value() == b->hash_value(), "comparison: equal nodes hash alike");
        vp_cover("equal");
      }
      break;
    }
  }
}
// ---------------------------------------------------------------- the table
struct Item {
  int kind;
  int64_t v;
  uintmax_t flag;
  double p, q;
  std::vector<PsddNode *> pr, su;
  PsddNode *kept;                            // what the table holds for this content, null when nothing
};
struct Table {
  VT vt;
  PsddUniqueTable *t = PsddUniqueTable::GetPsddUniqueTable();
  uintmax_t next = 0;
  std::vector<Item> items;
  Table() : vt(mkVtree({1, 2}, 0)) {}
  PsddNode *make(const Item &i) {
    Vtree *l = sdd_vtree_left(vt.root), *r = sdd_vtree_right(vt.root);
    if (i.kind == 1) return new PsddLiteralNode(next, std::abs(i.v) == 1 ? l : r, i.flag, i.v);
    if (i.kind == 3) return new PsddTopNode(next, i.v == 1 ? l : r, i.flag, i.v, par(i.p), par(i.q));
    std::vector<PsddParameter> w;
    for (size_t k = 0; k < i.pr.size(); ++k) w.push_back(par(k ? i.q : i.p));
    return new PsddDecisionNode(next, vt.root, i.flag, i.pr, i.su, w);
  }
  PsddNode *ask(Item &i, bool counted = true) {
    PsddNode *made = make(i);
    uintmax_t before = next;
    PsddNode *got = t->GetUniqueNode(made, counted ? &next : nullptr);
    if (i.kept) {
      vp_assert(got == i.kept, "table: finds the node it keeps");
      vp_assert(next == before, "table: the identifier advances only for a new node");
      vp_cover("found");
    } else {
      vp_assert(got == made, "table: keeps the new node");
      vp_assert(next == before + (counted ? 1 : 0), "table: the identifier advances for a new node");
      i.kept = got;
      if (!counted) next++;
    }
    vp_assert(got->flag_index() == i.flag, "table: nodes keep their content");
    return got;
  }
  void add(Item i) {
    for (Item &o : items)
      if (o.kind == i.kind && o.v == i.v && o.flag == i.flag && o.p == i.p && o.q == i.q && o.pr == i.pr && o.su == i.su) {
        ask(o);
        return;
      }
    items.push_back(i);
    ask(items.back(), items.size() % 3 != 2);
  }
  Item lit(int64_t v, uintmax_t f) { return {1, v, f, 0, 0, {}, {}, nullptr}; }
  Item top(int64_t v, uintmax_t f, double p, double q) { return {3, v, f, p, q, {}, {}, nullptr}; }
};
// a choice of nodes, a sweep by flags, everything asked for again, perhaps a second sweep
extern "C" void flags() {
  Table t;
  int n = vp_tier() ? 3 : 2;
  PsddNode *x = nullptr, *y = nullptr;
  for (int i = 0; i < n; ++i) {
    uintmax_t f = vp_choice("flag", 3);
    int k = vp_choice("node", 5);
    if (k == 0) t.add(t.lit(1, f));
    if (k == 1) t.add(t.lit(-2, f));
    if (k == 2) t.add(t.top(2, f, 0.25, 0.75));
    if (k >= 3) {
      t.add(t.lit(1, f));
      t.add(t.lit(-1, 2));
      t.add(t.top(2, 1, 0.5, 0.5));
      std::vector<PsddNode *> at(3, nullptr);
      for (Item &o : t.items) {
        if (o.kind == 1 && o.v == 1 && o.flag == f) at[0] = o.kept;
        if (o.kind == 1 && o.v == -1) at[1] = o.kept;
        if (o.kind == 3 && o.p == 0.5) at[2] = o.kept;
      }
      Item d{2, 0, f, 0.5, 0.5, {}, {}, nullptr};
      if (k == 3) d.pr = {at[0], at[1]}, d.su = {at[2], at[2]};
      else d.pr = {at[0]}, d.su = {at[2]};
      t.add(d);
    }
  }
  int sweeps = vp_tier() ? 2 : 1;
  for (int s = 0; s < sweeps; ++s) {
    uint64_t set = vp_choice("listed", 8);
    std::unordered_set<uintmax_t> fl;
    for (int i = 0; i < 3; ++i)
      if (set >> i & 1) fl.insert(i);
    if (vp_choice("more", 2)) fl.insert(41);
    std::vector<Snap> sn(t.items.size());
    for (size_t i = 0; i < t.items.size(); ++i) sn[i].add(t.items[i].kept);
    t.t->DeletePsddNodesWithoutFlagIndexes(fl);
    for (size_t i = 0; i < t.items.size(); ++i) {
      if (fl.count(t.items[i].flag)) vp_assert(sn[i].same() && sn[i].clean(), "table: kept nodes are unchanged");
      else t.items[i].kept = nullptr;
    }
    for (Item &o : t.items) t.ask(o, s == 0);
  }
  vp_cover("swept");
}
// symbolic flags and list
extern "C" void anyflag() {
  Table t;
  uintmax_t keep = vp_choice("keep", 3) * 0x8001, f[3] = {vp_bits("f0", 17), 0x8001, keep};
  int kind = vp_choice("kind", 3);
  auto mk = [&](int i) { return kind == 0 ? t.lit(1, f[i]) : kind == 1 ? t.lit(i == 1 ? -1 : 1, f[i]) : t.top(1, f[i], 0.5, 0.5); };
  for (int i = 0; i < 3; ++i) t.add(mk(i));
  for (size_t i = 0; i < t.items.size(); ++i)
    for (size_t j = 0; j < i; ++j) vp_assert(t.items[i].kept != t.items[j].kept && t.items[i].kept->node_index() != t.items[j].kept->node_index(), "table: different nodes are kept apart");
  t.t->DeletePsddNodesWithoutFlagIndexes({keep});
  for (Item &o : t.items)
    if (o.flag != keep) o.kept = nullptr;
  for (Item &o : t.items) t.ask(o);
  vp_cover("swept");
}
