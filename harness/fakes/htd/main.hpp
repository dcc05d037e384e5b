// Stand-ins for the parts of the htd library this repository uses. The library itself is not installed; the results its
// interface leaves open (elimination order, tree decomposition) are chosen by the harness (fakeOrder, fakeDecomposition).
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <memory>
#include <set>
#include <stack>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define HTD_UNUSED(x) (void)(x);
namespace htd {
typedef std::size_t vertex_t;
typedef std::size_t id_t;
typedef std::size_t index_t;
struct Id { static const id_t FIRST = 1, UNKNOWN = 0; };
struct Vertex { static const vertex_t FIRST = 1, UNKNOWN = 0; };
class LibraryInstance;
class IMultiHypergraph {
 public:
  std::size_t n = 0;
  std::vector<std::vector<vertex_t>> edges;
  virtual ~IMultiHypergraph() {}
  std::size_t vertexCount() const { return n; }
  std::size_t edgeCount() const { return edges.size(); }
};
class IMutableMultiHypergraph : public IMultiHypergraph {
 public:
  vertex_t addVertex() { return ++n; }
  vertex_t addVertices(std::size_t k) { vertex_t f = n + 1; n += k; return f; }
  id_t addEdge(const std::vector<vertex_t> &e) { edges.push_back(e); return edges.size(); }
  id_t addEdge(vertex_t a, vertex_t b) { edges.push_back({a, b}); return edges.size(); }
};
class MultiHypergraph : public IMutableMultiHypergraph {
 public:
  MultiHypergraph(const LibraryInstance *) {}
  MultiHypergraph(const LibraryInstance *, std::size_t k) { n = k; }
};
struct MultiHypergraphFactory {
  IMutableMultiHypergraph *createInstance() const { return new MultiHypergraph(nullptr); }
  IMutableMultiHypergraph *createInstance(std::size_t k) const { return new MultiHypergraph(nullptr, k); }
};
class IVertexOrdering {
 public:
  std::vector<vertex_t> s;
  virtual ~IVertexOrdering() {}
  const std::vector<vertex_t> &sequence() const { return s; }
};
std::vector<vertex_t> fakeOrder(const IMultiHypergraph &g);
class IOrderingAlgorithm {
 public:
  virtual ~IOrderingAlgorithm() {}
  IVertexOrdering *computeOrdering(const IMultiHypergraph &g) const {
    IVertexOrdering *o = new IVertexOrdering;
    o->s = fakeOrder(g);
    return o;
  }
};
class MinFillOrderingAlgorithm : public IOrderingAlgorithm {
 public:
  MinFillOrderingAlgorithm(const LibraryInstance *) {}
};
class MinDegreeOrderingAlgorithm : public IOrderingAlgorithm {
 public:
  MinDegreeOrderingAlgorithm(const LibraryInstance *) {}
};
struct OrderingAlgorithmFactory {
  void setConstructionTemplate(IOrderingAlgorithm *a) { delete a; }
};
// a rooted tree decomposition: vertices 1..bags.size(), parent 0 for the root
class ITreeDecomposition {
 public:
  std::vector<std::vector<vertex_t>> bags;
  std::vector<vertex_t> parents;
  virtual ~ITreeDecomposition() {}
  const std::vector<vertex_t> &bagContent(vertex_t v) const { return bags.at(v - 1); }
  std::size_t bagSize(vertex_t v) const { return bags.at(v - 1).size(); }
  std::size_t maximumBagSize() const {
    std::size_t m = 0;
    for (auto &b : bags) m = b.size() > m ? b.size() : m;
    return m;
  }
  std::size_t vertexCount() const { return bags.size(); }
  vertex_t root() const {
    for (std::size_t i = 0; i < parents.size(); ++i)
      if (parents[i] == 0) return i + 1;
    return 0;
  }
  vertex_t parent(vertex_t v) const { return parents.at(v - 1); }
  bool isRoot(vertex_t v) const { return parents.at(v - 1) == 0; }
  std::vector<vertex_t> children(vertex_t v) const {
    std::vector<vertex_t> r;
    for (std::size_t i = 0; i < parents.size(); ++i)
      if (parents[i] == v) r.push_back(i + 1);
    return r;
  }
  std::size_t childCount(vertex_t v) const { return children(v).size(); }
  std::size_t height() const { return 0; }
};
ITreeDecomposition *fakeDecomposition(const IMultiHypergraph &g);
class FitnessEvaluation {
 public:
  std::vector<double> v;
  FitnessEvaluation(int k, ...) {
    va_list a;
    va_start(a, k);
    for (int i = 0; i < k; ++i) v.push_back(va_arg(a, double));
    va_end(a);
  }
  double at(index_t i) const { return v.at(i); }
};
class ITreeDecompositionFitnessFunction {
 public:
  virtual ~ITreeDecompositionFitnessFunction() {}
  virtual FitnessEvaluation *fitness(const IMultiHypergraph &, const ITreeDecomposition &) const = 0;
  virtual ITreeDecompositionFitnessFunction *clone() const = 0;
};
class IDecompositionManipulationOperation {
 public:
  virtual ~IDecompositionManipulationOperation() {}
};
class NormalizationOperation : public IDecompositionManipulationOperation {
 public:
  NormalizationOperation(const LibraryInstance *) {}
  NormalizationOperation(const LibraryInstance *, bool, bool, bool, bool) {}
};
class IVertexSelectionStrategy {
 public:
  virtual ~IVertexSelectionStrategy() {}
};
class RandomVertexSelectionStrategy : public IVertexSelectionStrategy {
 public:
  RandomVertexSelectionStrategy(std::size_t) {}
};
class TreeDecompositionOptimizationOperation : public IDecompositionManipulationOperation {
 public:
  TreeDecompositionOptimizationOperation(const LibraryInstance *) {}
  TreeDecompositionOptimizationOperation(const LibraryInstance *, ITreeDecompositionFitnessFunction *f) { delete f; }
  void setManagementInstance(const LibraryInstance *) {}
  void setVertexSelectionStrategy(IVertexSelectionStrategy *s) { delete s; }
  void addManipulationOperation(IDecompositionManipulationOperation *o) { delete o; }
};
class ITreeDecompositionAlgorithm {
 public:
  virtual ~ITreeDecompositionAlgorithm() {}
  void addManipulationOperation(IDecompositionManipulationOperation *o) { delete o; }
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) const { return fakeDecomposition(g); }
};
struct TreeDecompositionAlgorithmFactory {
  ITreeDecompositionAlgorithm *createInstance() const { return new ITreeDecompositionAlgorithm; }
};
class IterativeImprovementTreeDecompositionAlgorithm {
  ITreeDecompositionAlgorithm *a;
  ITreeDecompositionFitnessFunction *f;
 public:
  IterativeImprovementTreeDecompositionAlgorithm(const LibraryInstance *, ITreeDecompositionAlgorithm *x, ITreeDecompositionFitnessFunction *y) : a(x), f(y) {}
  ~IterativeImprovementTreeDecompositionAlgorithm() {
    delete a;
    delete f;
  }
  void setIterationCount(std::size_t) {}
  void setNonImprovementLimit(std::size_t) {}
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) const { return fakeDecomposition(g); }
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g, const std::function<void(const IMultiHypergraph &, const ITreeDecomposition &, const FitnessEvaluation &)> &cb) const {
    ITreeDecomposition *d = fakeDecomposition(g);
    FitnessEvaluation *e = f->fitness(g, *d);
    cb(g, *d, *e);
    delete e;
    return d;
  }
};
class LibraryInstance {
 public:
  MultiHypergraphFactory mf;
  OrderingAlgorithmFactory of;
  TreeDecompositionAlgorithmFactory tf;
  MultiHypergraphFactory &multiHypergraphFactory() { return mf; }
  OrderingAlgorithmFactory &orderingAlgorithmFactory() { return of; }
  TreeDecompositionAlgorithmFactory &treeDecompositionAlgorithmFactory() { return tf; }
};
inline LibraryInstance *createManagementInstance(id_t) { return new LibraryInstance; }
class PostOrderTreeTraversal {
 public:
  template <class F> void go(const ITreeDecomposition &t, const F &f, vertex_t v, vertex_t p, std::size_t d) const {
    for (vertex_t c : t.children(v)) go(t, f, c, v, d + 1);
    f(v, p, d);
  }
  void traverse(const ITreeDecomposition &t, const std::function<void(vertex_t, vertex_t, std::size_t)> &f) const {
    go(t, f, t.root(), Vertex::UNKNOWN, 0);
  }
};
class PreOrderTreeTraversal {
 public:
  template <class F> void go(const ITreeDecomposition &t, const F &f, vertex_t v, vertex_t p, std::size_t d) const {
    f(v, p, d);
    for (vertex_t c : t.children(v)) go(t, f, c, v, d + 1);
  }
  void traverse(const ITreeDecomposition &t, const std::function<void(vertex_t, vertex_t, std::size_t)> &f) const {
    go(t, f, t.root(), Vertex::UNKNOWN, 0);
  }
};
}  // namespace htd
