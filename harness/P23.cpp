// P23: generated vtrees contain every variable exactly once (elimination order and hypergraph partition).
#include "vtreegen.h"
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/minfill_vtree.h>
using namespace vph;
using Scopes = std::vector<std::vector<int>>;
static int N;
static Scopes S;
static std::vector<SddLiteral> order;        // of elimination, one-based
std::vector<htd::vertex_t> htd::fakeOrder(const htd::IMultiHypergraph &g) {
  handed(g, N, S);
  std::vector<htd::vertex_t> r;
  uint64_t seen = 0;
  for (int i = 0; i < N; ++i) {
    uint64_t v = vp_bits("vertex", 4);
    vp_assume(v >= 1 && v <= (uint64_t)N && !(seen >> v & 1));
    seen |= 1ull << v;
    r.push_back(v);
  }
  order.assign(r.begin(), r.end());
  return r;
}
htd::ITreeDecomposition *htd::fakeDecomposition(const htd::IMultiHypergraph &) { return nullptr; }
// ---- KaHyPar
struct Hyper { int n; std::vector<uint64_t> edges; };
static std::vector<Hyper> pending;           // graphs that may still be asked for
static std::vector<Scopes> pendingScopes;
static std::string configured;
static int contexts, calls;
static Hyper hyper(const Scopes &s) {
  std::map<int, uint64_t> e;
  for (size_t i = 0; i < s.size(); ++i)
    for (int v : s[i]) e[v] |= 1ull << i;
  Hyper h;
  h.n = s.size();
  for (auto &p : e) h.edges.push_back(p.second);
  std::sort(h.edges.begin(), h.edges.end());
  return h;
}
extern "C" {
kahypar_context_t *kahypar_context_new() {
  ++contexts;
  return (kahypar_context_t *)&contexts;
}
void kahypar_context_free(kahypar_context_t *c) {
  vp_assert(c == (kahypar_context_t *)&contexts && contexts == 1, "partitioner: context freed once");
  --contexts;
}
void kahypar_configure_context_from_file(kahypar_context_t *c, const char *f) {
  vp_assert(c == (kahypar_context_t *)&contexts && contexts == 1, "partitioner: a valid context");
  configured = f;
}
void kahypar_partition(const kahypar_hypernode_id_t nv, const kahypar_hyperedge_id_t ne, const double eps, const kahypar_partition_id_t k, const kahypar_hypernode_weight_t *vw,
                       const kahypar_hyperedge_weight_t *ew, const size_t *ptr, const kahypar_hyperedge_id_t *pins, kahypar_hyperedge_weight_t *, kahypar_context_t *c, kahypar_partition_id_t *part) {
  vp_assert(c == (kahypar_context_t *)&contexts && contexts == 1, "partitioner: a valid context");
  vp_assert(k == 2 && nv >= 2 && nv <= 60, "partitioner: two blocks of something");
  vp_assert(vw == nullptr && ew == nullptr, "partitioner: unweighted");
  vp_assert(ptr[0] == 0, "partitioner: edges start at zero");
  Hyper h;
  h.n = nv;
  for (size_t e = 0; e < ne; ++e) {
    uint64_t m = 0;
    vp_assert(ptr[e] < ptr[e + 1], "partitioner: edges are not empty");
    for (size_t i = ptr[e]; i < ptr[e + 1]; ++i) {
      vp_assert(pins[i] < nv && !(m >> pins[i] & 1), "partitioner: pins are distinct vertices");
      m |= 1ull << pins[i];
    }
    h.edges.push_back(m);
  }
  std::sort(h.edges.begin(), h.edges.end());
  // which of the graphs that may be asked for is it? vertices keep the order of the factors
  size_t at = 0;
  while (at < pending.size() && !(pending[at].n == h.n && pending[at].edges == h.edges)) ++at;
  vp_assert(at < pending.size(), "partitioner: given the factor graph exactly");
  Scopes s = pendingScopes[at];
  pending.erase(pending.begin() + at);
  pendingScopes.erase(pendingScopes.begin() + at);
  // any partition within the balance it promises
  int lim = (int)((1 + eps) * ((nv + 1) / 2));
  uint64_t bits = vp_bits("partition", nv), ones = 0;
  for (unsigned i = 0; i < nv; ++i) ones += bits >> i & 1;
  vp_assume(ones <= (uint64_t)lim && nv - ones <= (uint64_t)lim && ones >= 1 && ones < nv);
  std::vector<char> p(nv);
  for (unsigned i = 0; i < nv; ++i) p[i] = (char)vp_concrete(bits >> i & 1), part[i] = p[i];
  ++calls;
  // the graphs either side leaves
  std::set<int> v[2];
  for (unsigned i = 0; i < nv; ++i) v[(int)p[i]].insert(s[i].begin(), s[i].end());
  for (int b = 0; b < 2; ++b) {
    Scopes t;
    for (unsigned i = 0; i < nv; ++i) {
      std::vector<int> r;
      for (int x : s[i])
        if (v[b].count(x) && !v[1 - b].count(x)) r.push_back(x);
      if (!r.empty()) t.push_back(r);
    }
    if (!t.empty()) pending.push_back(hyper(t)), pendingScopes.push_back(t);
  }
}
}
static uint32_t all(const Scopes &s) {
  uint32_t m = 0;
  for (auto &x : s)
    for (int v : x) m |= 1u << v;
  return m;
}
// every connected part is headed by whichever of its variables is eliminated last; independent parts are separable
static void headed(Vtree *v) {
  std::vector<SddLiteral> l;
  leaves(v, &l);
  if (l.size() == 1) return;
  uint32_t in = 0;
  for (SddLiteral x : l) in |= 1u << (x - 1);
  std::vector<uint32_t> part(N);
  for (int i = 0; i < N; ++i) part[i] = in >> i & 1 ? 1u << i : 0;
  for (int r = 0; r < N; ++r)
    for (auto &s : S)
      for (int a : s)
        for (int b : s)
          if ((in >> a & 1) && (in >> b & 1)) part[a] |= part[b];
  if (part[l[0] - 1] == in) {
    SddLiteral last = 0;
    for (SddLiteral x : order)
      if (in >> (x - 1) & 1) last = x;
    Vtree *a = sdd_vtree_left(v);
    vp_assert(sdd_vtree_is_leaf(a) && sdd_vtree_var(a) == last, "elimination order: a connected part is headed by its last variable");
    headed(sdd_vtree_right(v));
  } else {
    std::vector<SddLiteral> a;
    leaves(sdd_vtree_left(v), &a);
    uint32_t m = 0;
    for (SddLiteral x : a) m |= 1u << (x - 1);
    for (SddLiteral x : a) vp_assert((part[x - 1] & ~m) == 0, "elimination order: independent parts stay separable");
    headed(sdd_vtree_left(v));
    headed(sdd_vtree_right(v));
  }
}
static void fill(int n, const Scopes &s) {
  N = n, S = s;
  UaiNetwork *u = readGraph(n, s);
  MinFillVtree g(u);
  Vtree *v = g.ConstructVtree();
  generated(v, (1u << n) - 1, s);
  headed(v);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  vp_assert(m->vtree() != nullptr, "generated: usable");
}
static Scopes graph(int n, uint64_t bits) {
  Scopes s;
  uint32_t used = 0;
  int e = 0;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j, ++e)
      if (bits >> e & 1) {
        if (e & 1) s.push_back({j, i});
        else s.push_back({i, j});
        used |= 3u;
      }
  if (s.empty() || bits & 1) s.push_back({n - 1});
  return s;
}
// every graph, every elimination order
extern "C" void elimination() {
  int n = 1 + vp_choice("n", vp_tier() ? 5 : 4);
  fill(n, graph(n, vp_choice("graph", 1u << (n * (n - 1) / 2))));
}
static Scopes pick(int n, int k, uint64_t g) {
  Scopes s;
  uint64_t x = g * 2654435761u + 12345;
  for (int i = 0; i < k; ++i) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    uint32_t m = (x >> 33) % ((1u << n) - 1) + 1;
    while (__builtin_popcount(m) > 3) m &= m - 1;
    auto v = members(m);
    if (x >> 60 & 1) std::reverse(v.begin(), v.end());
    s.push_back(v);
  }
  return s;
}
// larger factors, repeated and contained in each other
extern "C" void elimination_factors() {
  int n = 3 + vp_choice("n", 2), k = 1 + vp_choice("factors", 3);
  fill(n, pick(n, k, vp_choice("graph", vp_tier() ? 60 : 15)));
}
static void hyp(int n, const Scopes &s, const std::string &dir) {
  N = n, S = s;
  pending.clear(), pendingScopes.clear();
  pending.push_back(hyper(s));
  pendingScopes.push_back(s);
  contexts = calls = 0;
  UaiNetwork *u = readGraph(n, s);
  HypergraphDecompositionVtree g(u, dir.c_str());
  Vtree *v = g.ConstructVtree();
  generated(v, all(s), s);
  vp_assert(contexts == 0, "partitioner: the context is released");
  if (calls) vp_cover("partitioned");
  if (calls > 1) vp_cover("partitioned again");
}
static std::string scratch() {
  std::string f = vp_tmp();
  return f.substr(0, f.rfind('/'));
}
// up to three factors or one variable: no partition needed
extern "C" void small() {
  int n = 1 + vp_choice("n", 4), k = 1 + vp_choice("factors", 5);
  if (n > 1 && k > 3) k = 3;
  hyp(n, pick(n, k, vp_choice("graph", 20)), scratch());
  if (!configured.empty()) vp_unlink(configured.c_str());
}
extern "C" void partition() {
  int n = 2 + vp_choice("n", vp_tier() ? 6 : 5), k = 4 + vp_choice("factors", vp_tier() ? 7 : 5);
  hyp(n, pick(n, k, vp_choice("graph", vp_tier() ? 30 : k > 6 ? 2 : 8)), scratch());
  vp_assert(configured == scratch() + "/config.ini", "partitioner: configured from the working directory");
  vp_unlink(configured.c_str());
}
// working directories of any length
extern "C" void directory() {
  static const int L[] = {1, 100, 487, 488, 489, 499, 500, 600, 4000};
  std::string d = scratch() + "/missing";
  int len = L[vp_choice("length", 9)];
  while ((int)d.size() < len) d += "/x";
  hyp(2, {{0}, {1}, {0, 1}}, d);
}
