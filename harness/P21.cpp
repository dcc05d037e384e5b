// P21: reading a CNF file recovers exactly its clauses.
#include "common.h"
#include <psdd/cnf.h>
#include <fstream>
using namespace vph;
using Clauses = std::vector<std::vector<SddLiteral>>;
static void check(const std::string &t, const Clauses &want) {
  const char *fn = vp_tmp();
  std::ofstream o(fn, std::ios::binary);
  o << t;
  o.close();
  CNF c(fn);
  vp_unlink(fn);
  auto &got = c.clauses();
  vp_assert(got.size() == want.size(), "as many clauses as listed");
  for (size_t i = 0; i < want.size(); ++i) {
    vp_assert(got[i].size() == want[i].size(), "a clause has the literals before its zero");
    for (size_t j = 0; j < want[i].size(); ++j) vp_assert(got[i][j] == want[i][j], "literals in order");
  }
  vp_cover("read");
}
struct Layout { std::string nl, sp, lead, tail; };
static Layout layout(int k) {
  switch (k) {
    case 0: return {"\n", " ", "", ""};
    case 1: return {"\r\n", " ", "", " "};
    case 2: return {"\n", "\t", " ", "\t"};
    default: return {"\n", "  ", "\t", "  "};
  }
}
// one line of numbers: the clause it lists
static void numbers(std::string &t, const Layout &l, int k, int signs, int end, Clauses &want, bool anyZero) {
  std::vector<SddLiteral> c;
  bool open = true;
  t += l.lead;
  for (int i = 0; i < k; ++i) {
    int64_t v = vp_bits("literal", 31);
    if (!anyZero) vp_assume(v != 0);
    bool neg = signs >> i & 1;
    if (i) t += l.sp;
    if (neg) t += "-";
    t += vp_text_int(v);
    if (open && v == 0) open = false;
    if (open) c.push_back(neg ? -v : v);
  }
  // 0: nothing, 1: a zero, 2: a zero and more numbers, 3: the zero written -0 or 00
  if (end) t += (k ? l.sp : std::string()) + (end == 3 ? (k & 1 ? "-0" : "00") : "0");
  if (end == 2) t += l.sp + "7" + l.sp + "-8" + l.sp + "0";
  t += l.tail;
  want.push_back(c);
}
static const char *aside[] = {"p cnf 3 2", "c", "c a comment 1 2 0", "c1 2 0", "p", "", " ", "\t \t"};
// every pair of lines
extern "C" void lines() {
  int lay = vp_choice("layout", 4), m = 1 + vp_choice("lines", vp_tier() ? 3 : 2);
  bool last = vp_choice("final", 2);
  Layout l = layout(lay);
  std::string t;
  Clauses want;
  for (int i = 0; i < m; ++i) {
    int kind = vp_choice("kind", 3 * 3 + 8);
    if (kind >= 9) t += aside[kind - 9] + (kind - 9 < 5 ? l.tail : "");
    else {
      int k = kind % 3, end = kind / 3;
      if (k == 0 && end == 0) {
        k = 1;
        end = 3;
      }
      int signs = k ? (int)vp_choice("signs", 1 << k) : 0;
      numbers(t, l, k, signs, end, want, true);
    }
    if (i + 1 < m || last) t += l.nl;
  }
  check(t, want);
}
// longer clauses, any literal may be the terminating zero
extern "C" void clauses() {
  int k = 1 + vp_choice("literals", vp_tier() ? 12 : 6), lay = vp_choice("layout", 4), end = vp_choice("end", 4), s = vp_choice("signs", 4);
  Layout l = layout(lay);
  static const int S[] = {0, 0xfff, 0x555, 0x6a9};
  std::string t = "c header" + l.nl + "p cnf 9 3" + l.nl;
  Clauses want;
  numbers(t, l, k, S[s], end, want, true);
  t += l.nl;
  numbers(t, l, 2, ~S[s], 1, want, false);
  t += l.nl;
  check(t, want);
}
// comments and empty lines at every place between clauses
extern "C" void between() {
  int m = 1 + vp_choice("clauses", vp_tier() ? 5 : 3), at = vp_choice("place", m + 1), what = vp_choice("what", 8), times = 1 + vp_choice("times", 2);
  int lay = vp_choice("layout", 4);
  Layout l = layout(lay);
  std::string t;
  Clauses want;
  for (int i = 0; i <= m; ++i) {
    if (i == at)
      for (int j = 0; j < times; ++j) t += aside[(what + j * 3) % 8] + l.nl;
    if (i == m) break;
    numbers(t, l, i % 3, i, 1, want, false);
    t += l.nl;
  }
  check(t, want);
}
// many clauses and literals, extreme values
extern "C" void sizes() {
  int m = vp_choice("size", 5);
  static const int M[] = {0, 1, 17, 100, 1000};
  std::string t;
  Clauses want;
  for (int i = 0; i < M[m]; ++i) {
    std::vector<SddLiteral> c;
    for (int j = 0; j < i % 7; ++j) c.push_back((i * 31 + j + 1) * ((i + j) & 1 ? -1 : 1) * (j == 3 ? 1000003 : 1));
    for (auto x : c) t += std::to_string(x) + " ";
    t += "0\n";
    want.push_back(c);
  }
  std::vector<SddLiteral> c;
  for (int j = 0; j < M[m]; ++j) c.push_back(j & 1 ? -j - 1 : j + 1), t += std::to_string(c.back()) + " ";
  int64_t v = vp_bits("literal", 31);
  if (v != 0) c.push_back(v);
  t += vp_text_int(v);
  want.push_back(c);
  check(t, want);
}
