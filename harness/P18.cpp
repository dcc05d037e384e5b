// P18: reading a factor graph file recovers exactly what the file says.
#include "common.h"
#include <psdd/uai_network.h>
#include <fstream>
#include <sstream>
using namespace vph;
struct Fac { std::vector<uint64_t> scope; std::vector<double> w; std::vector<std::string> txt; };
// how the text is laid out
struct Layout { int entries, blank, space; bool crlf, last; };
static void run(int kind, uint64_t vars, std::vector<Fac> fs, const Layout &l) {
  std::string nl = l.crlf ? "\r\n" : "\n", sp = l.space == 0 ? " " : l.space == 1 ? "  " : "\t", tail = l.space == 1 ? " " : "";
  std::string t = std::string(kind == 2 ? "BAYES" : "MARKOV") + tail + nl + vp_text_int(vars) + tail + nl;
  for (int i = 0; i < 3; ++i) t += i ? sp + "2" : "2";
  t += tail + nl + std::to_string(fs.size()) + tail + nl;
  for (auto &f : fs) {
    t += std::to_string(f.scope.size());
    for (uint64_t v : f.scope) t += sp + vp_text_int(v);
    t += tail + nl;
  }
  std::string blank = l.blank == 0 ? "" : l.blank == 1 ? nl : l.blank == 2 ? nl + nl : sp + nl + nl;
  bool end = true;
  for (size_t k = 0; k < fs.size(); ++k) {
    auto &f = fs[k];
    size_t n = f.txt.size();
    t += blank + std::to_string(n);
    // 0: all on the line of the count, 1: on the next line, 2: one per line, 3: two per line starting on the count's line,
    // 4: one per line with blank lines in between, 5: halves separated by a blank line
    if (l.entries == 1 || l.entries == 2 || l.entries == 4 || l.entries == 5) t += tail + nl;
    for (size_t i = 0; i < n; ++i) {
      bool lineStart = l.entries == 2 || l.entries == 4 || (l.entries == 1 && i == 0) || (l.entries == 3 && i && i % 2 == 0) || (l.entries == 5 && i % ((n + 1) / 2) == 0);
      if (lineStart && i) t += tail + nl;
      if (lineStart && l.entries == 4) t += i % 2 ? nl : sp + nl;
      if (lineStart && l.entries == 5 && i) t += nl;
      t += (lineStart && l.space != 1 ? "" : sp) + f.txt[i];
    }
    t += tail;
    if (k + 1 < fs.size() || l.last) t += nl;
  }
  const char *fn = vp_tmp();
  std::ofstream o(fn, std::ios::binary);
  o << t;
  o.close();
  UaiNetwork u;
  u.read_file(fn);
  vp_unlink(fn);
  vp_assert(u.network_type() == (kind == 2 ? BAYESIAN_NETWORK_TYPE : MARKOV_NETWORK_TYPE), "kind");
  vp_assert(u.var_size() == vars, "number of variables");
  vp_assert(u.factor_size() == fs.size() && u.factor_scopes().size() == fs.size() && u.params().size() == fs.size(), "number of factors");
  for (size_t i = 0; i < fs.size(); ++i) {
    auto &s = u.factor_scopes()[i];
    vp_assert(s.size() == fs[i].scope.size(), "scope: as many variables as listed");
    for (size_t j = 0; j < s.size(); ++j) vp_assert(s[j] == fs[i].scope[j] + 1, "scope: one-based variables in file order");
    auto &p = u.params()[i];
    vp_assert(p.size() == fs[i].w.size(), "table: as many entries as listed");
    for (size_t j = 0; j < p.size(); ++j) {
      if (fs[i].w[j] == 0) vp_assert(p[j].parameter() == NINF, "table: entries in file order");
      else vp_log_eq(p[j].parameter(), std::log(fs[i].w[j]), "table: entries in file order");
    }
  }
  vp_cover("read");
}
static Fac factor(uint64_t vars, int arity, int zero) {
  Fac f;
  for (int j = 0; j < arity; ++j) {
    uint64_t v = vp_bits("variable", 31);
    vp_assume(v < vars);
    for (uint64_t o : f.scope) vp_assume(o != v);
    f.scope.push_back(v);
  }
  for (int j = 0; j < 1 << arity; ++j) {
    static const char *Z[] = {"0", "0.0", "0e3", "0.000000"};
    if (zero >= 0 && (zero & 7) == (j & 7)) {
      f.w.push_back(0);
      f.txt.push_back(Z[zero >> 3]);
    } else {
      f.w.push_back(vp_real("entry"));
      f.txt.push_back(vp_text_real(f.w.back()));
    }
  }
  return f;
}
static uint64_t varCount() {
  uint64_t v = vp_bits("variables", 31);
  vp_assume(v >= 4);
  return v;
}
extern "C" void layouts() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("factors", vp_tier() ? 3 : 2), kind = 1 + vp_choice("kind", 2);
  Layout l;
  l.entries = vp_choice("entries", 6);
  l.blank = vp_choice("blank", 4);
  l.space = vp_choice("space", 3);
  l.crlf = vp_choice("crlf", 2);
  l.last = vp_choice("last", 2);
  uint64_t v = varCount();
  std::vector<Fac> fs;
  for (int i = 0; i < n; ++i) fs.push_back(factor(v, 1 + (n - i) % 3, -1));
  run(kind, v, fs, l);
}
extern "C" void tables() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("factors", 3);
  Layout l;
  l.entries = vp_choice("entries", 6);
  l.blank = l.entries % 3;
  l.space = n % 3;
  l.crlf = false;
  l.last = true;
  uint64_t v = varCount();
  std::vector<Fac> fs;
  for (int i = 0; i < n; ++i) {
    int ar = 1 + vp_choice("arity", i == 0 ? 4 : vp_tier() ? 3 : 2);
    int z = i == 0 ? (int)vp_choice("zero", 9) - 1 : -1;
    fs.push_back(factor(v, ar, z < 0 ? z : z + 8 * ((z + ar) % 4)));
  }
  run(1, v, fs, l);
}
// numbers as people write them
extern "C" void numbers() {
  static const struct { const char *t; double v; } N[] = {{"1", 1}, {"0.5", 0.5}, {".25", 0.25}, {"2.", 2}, {"1e-3", 1e-3}, {"1.5E+2", 150}, {"1e-300", 1e-300}, {"+3", 3}, {"000.125", 0.125}, {"123456789", 123456789}, {"0", 0}};
  Fac f;
  f.scope = {0};
  for (int i = 0; i < 2; ++i) {
    int k = vp_choice("number", 11);
    f.txt.push_back(N[k].t);
    f.w.push_back(N[k].v);
  }
  Layout l = {(int)vp_choice("entries", 6), 0, 0, false, true};
  run(1, 5, {f}, l);
}
