// P27: join-tree vtrees contain every variable exactly once.
#include "vtreegen.h"
#include <psdd/jointree_vtree.h>
using namespace vph;
using Scopes = std::vector<std::vector<int>>;
static int N, nodes, treeShape;
static bool narrow;                          // every variable but the first in one or two bags, trees from a list
static Scopes S;
std::vector<htd::vertex_t> htd::fakeOrder(const htd::IMultiHypergraph &g) { return {}; }
// any valid tree decomposition: every factor inside a bag, every variable in a connected non-empty set of bags
htd::ITreeDecomposition *htd::fakeDecomposition(const htd::IMultiHypergraph &g) {
  handed(g, N, S);
  auto *d = new htd::ITreeDecomposition;
  // tree: node i+1 hangs below one of 1..i, chosen by the digits of treeShape; numbers may be permuted
  for (int i = 0, x = treeShape; i < nodes; ++i) {
    d->parents.push_back(i ? 1 + x % i : 0);
    if (i) x /= i;
  }
  if (narrow) {
    static const int P[][6] = {{0, 1, 1, 1, 1, 1}, {0, 1, 2, 2, 2, 2}, {0, 1, 2, 2, 1, 1}, {0, 1, 2, 3, 3, 3}, {0, 1, 1, 3, 3, 3}, {0, 1, 2, 2, 2, 1}};
    for (int i = 0; i < nodes; ++i) d->parents[i] = P[treeShape][i];
  }
  std::vector<uint64_t> bag(nodes);
  for (int i = 0; i < nodes; ++i) bag[i] = vp_bits("bag", N);
  for (int v = 0; v < N; ++v) {
    // connected: exactly one bag with v whose parent has no v
    uint64_t tops = 0;
    for (int i = 0; i < nodes; ++i) {
      uint64_t up = i ? bag[d->parents[i] - 1] >> v & 1 : 0;
      tops += (bag[i] >> v & 1) & (up ^ 1);
    }
    vp_assume(tops == 1);
    if (narrow && v) {
      uint64_t in = 0;
      for (int i = 0; i < nodes; ++i) in += bag[i] >> v & 1;
      vp_assume(in <= 1);
    }
  }
  for (auto &s : S) {
    uint64_t m = 0, in = 0;
    for (int v : s) m |= 1ull << v;
    for (int i = 0; i < nodes; ++i) in |= (bag[i] & m) == m;
    vp_assume(in != 0);
  }
  for (int i = 0; i < nodes; ++i) {
    std::vector<htd::vertex_t> c;
    for (int v = 0; v < N; ++v)
      if (vp_concrete(bag[i] >> v & 1)) c.push_back(v + 1);
    d->bags.push_back(c);
  }
  return d;
}
static int shapes(int k) {
  int r = 1;
  for (int i = 2; i < k; ++i) r *= i;
  return r;
}
static void run(int n, const Scopes &s, int k) {
  N = n, S = s, nodes = k;
  treeShape = vp_choice("tree", narrow ? 6 : shapes(k));
  UaiNetwork *u = readGraph(n, s);
  JointreeVtree g(u);
  Vtree *v = g.ConstructVtree();
  generated(v, (1u << n) - 1, s);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  vp_assert(m->vtree() != nullptr, "generated: usable");
}
extern "C" void bags() {
  int n = 1 + vp_choice("n", 3), k = 1 + vp_choice("bags", vp_tier() ? 5 - n / 3 : n == 3 ? 3 : 4);
  static const Scopes G[] = {{{0}}, {{0}, {0}}, {{0, 1}}, {{0}, {1}}, {{1}}, {{0, 1}, {1, 2}}, {{2, 0}}, {{0, 1, 2}}, {{2}, {0, 1}}, {{0, 1}, {1, 2}, {2, 0}}};
  int g = vp_choice("graph", n == 1 ? 2 : n == 2 ? 5 : 10);
  run(n, G[g], k);
}
extern "C" void four() {
  static const Scopes G[] = {{{0, 1}, {1, 2}, {2, 3}}, {{0, 1, 2}, {2, 3}}, {{0, 1}, {2, 3}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, {{3}}, {{0, 1}, {0, 2}, {0, 3}}};
  run(4, G[vp_choice("graph", 6)], 2 + vp_choice("bags", vp_tier() ? 3 : 2));
}
// nodes with several children, whose own variables may all be in the parent's bag
extern "C" void branching() {
  static const Scopes G[] = {{{3}}, {{0, 1}, {2}}};
  narrow = true;
  int k = vp_tier() ? 4 + vp_choice("bags", 3) : 5;
  run(4, G[vp_tier() ? vp_choice("graph", 2) : 0], k);
}
