// Vtrees generated from factor graphs: what every method has to deliver, whatever the external library answers.
#pragma once
#include "uai.h"
#include <htd/main.hpp>
#include <kahypar/libkahypar.h>
namespace vph {
static inline UaiNetwork *readGraph(int n, const std::vector<std::vector<int>> &scopes) {
  std::string t = "MARKOV\n" + std::to_string(n) + "\n";
  for (int i = 0; i < n; ++i) t += i ? " 2" : "2";
  t += "\n" + std::to_string(scopes.size()) + "\n";
  for (auto &s : scopes) {
    t += std::to_string(s.size());
    for (int v : s) t += " " + std::to_string(v);
    t += "\n";
  }
  for (auto &s : scopes) {
    t += "\n" + std::to_string(1 << s.size()) + "\n";
    for (int i = 0; i < 1 << s.size(); ++i) t += " 1.0";
    t += "\n";
  }
  const char *f = textFile(t);
  UaiNetwork *u = new UaiNetwork;
  u->read_file(f);
  vp_unlink(f);
  return u;
}
static inline void leaves(Vtree *v, std::vector<SddLiteral> *out) {
  if (sdd_vtree_is_leaf(v)) out->push_back(sdd_vtree_var(v));
  else leaves(sdd_vtree_left(v), out), leaves(sdd_vtree_right(v), out);
}
static inline SddLiteral proper(Vtree *v, Vtree *up, SddLiteral pos, SddLiteral *count) {
  vp_assert(v != nullptr && sdd_vtree_parent(v) == up && sdd_vtree_data(v) == nullptr, "generated: a proper binary tree");
  if (sdd_vtree_is_leaf(v)) {
    *count = 1;
    vp_assert(sdd_vtree_position(v) == pos && sdd_vtree_var_count(v) == 1, "generated: positions and counts are set");
    return pos + 1;
  }
  SddLiteral a = 0, b = 0;
  pos = proper(sdd_vtree_left(v), v, pos, &a);
  vp_assert(sdd_vtree_position(v) == pos, "generated: positions and counts are set");
  pos = proper(sdd_vtree_right(v), v, pos + 1, &b);
  *count = a + b;
  vp_assert(sdd_vtree_var_count(v) == a + b, "generated: positions and counts are set");
  return pos;
}
// vars: 0-based variables that have to be there
static inline void generated(Vtree *v, uint32_t vars, const std::vector<std::vector<int>> &scopes) {
  SddLiteral c = 0;
  proper(v, nullptr, 0, &c);
  std::vector<SddLiteral> l;
  leaves(v, &l);
  std::vector<int> times(64, 0);
  for (SddLiteral x : l) {
    vp_assert(x >= 1 && x <= 32 && (vars >> (x - 1) & 1), "generated: only variables of the graph");
    vp_assert(++times[x] == 1, "generated: every variable once");
  }
  vp_assert((int)l.size() == __builtin_popcount(vars), "generated: every variable of the graph");
  VT vt;
  vt.root = v;
  vt.vars = l;
  for (auto &s : scopes) {
    std::vector<int> pos;
    for (int x : s)
      for (size_t i = 0; i < l.size(); ++i)
        if (l[i] == x + 1) pos.push_back(i);
    vp_assert(chain(vt, pos), "generated: every factor can be compiled over it");
  }
  vp_cover("generated");
}
static inline std::vector<int> members(uint32_t m) {
  std::vector<int> r;
  for (int i = 0; i < 32; ++i)
    if (m >> i & 1) r.push_back(i);
  return r;
}
// the hypergraph handed to the library: one vertex per variable, one edge per factor
static inline void handed(const htd::IMultiHypergraph &g, int n, const std::vector<std::vector<int>> &scopes) {
  vp_assert((int)g.n == n, "library: one vertex per variable");
  std::vector<uint32_t> a, b;
  for (auto &e : g.edges) {
    uint32_t m = 0;
    for (auto v : e) {
      vp_assert(v >= 1 && (int)v <= n, "library: edges over the graph's vertices");
      m |= 1u << (v - 1);
    }
    a.push_back(m);
  }
  for (auto &s : scopes) {
    uint32_t m = 0;
    for (int v : s) m |= 1u << v;
    b.push_back(m);
  }
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  a.erase(std::unique(a.begin(), a.end()), a.end());
  b.erase(std::unique(b.begin(), b.end()), b.end());
  vp_assert(a == b, "library: an edge per factor");
}
}  // namespace vph
