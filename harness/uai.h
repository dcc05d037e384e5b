// Factor graphs written as files for PgmCompiler, with symbolic table entries.
#pragma once
#include "common.h"
#include <psdd/pgm_compiler.h>
#include <fstream>
namespace vph {
struct Factor { std::vector<int> scope; std::vector<SddLiteral> names; std::vector<double> w; };   // scope: positions, last one fastest
struct Uai { int vars = 0; std::vector<Factor> fs; };
// one weight shared by all the flat tables of a path
static inline double flat() {
  static double w = 0;
  if (w == 0) w = vp_real("flat");
  return w;
}
static inline Factor makeFactor(const VT &vt, const std::vector<int> &scope, uint64_t zeros, bool ones = false) {
  Factor f;
  f.scope = scope;
  for (int p : scope) f.names.push_back(vt.vars[p]);
  for (int j = 0; j < 1 << scope.size(); ++j) f.w.push_back(zeros >> j & 1 ? 0 : ones ? flat() : vp_real("entry"));
  return f;
}
static inline double entry(const Factor &f, Asg a) {
  int j = 0;
  for (int p : f.scope) j = j * 2 + (a >> p & 1);
  return f.w[j];
}
// every ordered scope of 1..k of n positions
static inline std::vector<std::vector<int>> scopes(int n, int k) {
  std::vector<std::vector<int>> r, last = {{}};
  for (int i = 0; i < k; ++i) {
    std::vector<std::vector<int>> next;
    for (auto &s : last)
      for (int p = 0; p < n; ++p) {
        bool in = false;
        for (int q : s) in = in || q == p;
        if (in) continue;
        auto t = s;
        t.push_back(p);
        next.push_back(t);
      }
    r.insert(r.end(), next.begin(), next.end());
    last = next;
  }
  return r;
}
// the scope's variables are decided one after another on the way down: each one hangs off the path to those right of it
static inline bool chain(const VT &vt, std::vector<int> scope) {
  std::sort(scope.begin(), scope.end());
  std::map<SddLiteral, Vtree *> leaf;
  for (Vtree *v : vtree_util::SerializeVtree(vt.root))
    if (sdd_vtree_is_leaf(v)) leaf[sdd_vtree_var(v)] = v;
  auto under = [](Vtree *a, Vtree *b) {
    for (; a; a = sdd_vtree_parent(a))
      if (a == b) return true;
    return false;
  };
  Vtree *cur = leaf[vt.vars[scope.back()]];
  for (int i = (int)scope.size() - 2; i >= 0; --i) {
    Vtree *l = leaf[vt.vars[scope[i]]];
    if (under(l, cur)) return false;
    while (!under(l, cur)) cur = sdd_vtree_parent(cur);
  }
  return true;
}
static inline std::vector<std::vector<int>> chains(const VT &vt, int n, int k) {
  std::vector<std::vector<int>> r;
  for (auto &s : scopes(n, k))
    if (chain(vt, s)) r.push_back(s);
  return r;
}
static inline std::string uaiText(const Uai &u) {
  std::string t = "MARKOV\n" + std::to_string(u.vars) + "\n";
  for (int i = 0; i < u.vars; ++i) t += i ? " 2" : "2";
  t += "\n" + std::to_string(u.fs.size()) + "\n";
  for (auto &f : u.fs) {
    t += std::to_string(f.scope.size());
    for (SddLiteral v : f.names) t += " " + std::to_string(v - 1);
    t += "\n";
  }
  for (auto &f : u.fs) {
    t += "\n" + std::to_string(f.w.size()) + "\n";
    for (double w : f.w) t += std::string(" ") + vp_text_real(w);
    t += "\n";
  }
  return t;
}
static inline const char *textFile(const std::string &t) {
  const char *fn = vp_tmp();
  std::ofstream o(fn, std::ios::binary);
  o << t;
  o.close();
  return fn;
}
static inline PgmCompiler *makeCompiler(const Uai &u, const VT &vt) {
  PgmCompiler *c = new PgmCompiler(".");
  const char *f = textFile(uaiText(u));
  c->read_uai_file(f);
  vp_unlink(f);
  const char *v = vp_tmp();
  sdd_vtree_save(v, vt.root);
  c->init_psdd_manager_from_vtree(v);
  vp_unlink(v);
  return c;
}
}  // namespace vph
