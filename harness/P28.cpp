// P28: the network compiler program writes exactly the compiled distribution.
#include "vtreegen.h"
#include "capture.h"
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace vph;
extern "C" int program_main(int argc, const char *argv[]);
static const double TOL = 1e-4;              // six printed decimals per parameter; the partition function has six printed digits
// ---- the external libraries: some answer within their contracts (P23 and P27 explore all of them)
static int variant;
std::vector<htd::vertex_t> htd::fakeOrder(const htd::IMultiHypergraph &g) {
  std::vector<htd::vertex_t> r;
  for (size_t i = 0; i < g.n; ++i) r.push_back(variant ? g.n - i : i + 1);
  return r;
}
htd::ITreeDecomposition *htd::fakeDecomposition(const htd::IMultiHypergraph &g) {
  auto *d = new htd::ITreeDecomposition;
  std::vector<htd::vertex_t> b;
  for (size_t i = 0; i < g.n; ++i) b.push_back(i + 1);
  d->parents.push_back(0);
  d->bags.push_back(b);
  if (variant) d->parents.push_back(1), d->bags.push_back(b);
  return d;
}
static int context;
extern "C" {
kahypar_context_t *kahypar_context_new() { return (kahypar_context_t *)&context; }
void kahypar_context_free(kahypar_context_t *) {}
void kahypar_configure_context_from_file(kahypar_context_t *, const char *f) { unlink(f); }
void kahypar_partition(const kahypar_hypernode_id_t nv, const kahypar_hyperedge_id_t, const double, const kahypar_partition_id_t, const kahypar_hypernode_weight_t *, const kahypar_hyperedge_weight_t *,
                       const size_t *, const kahypar_hyperedge_id_t *, kahypar_hyperedge_weight_t *, kahypar_context_t *, kahypar_partition_id_t *part) {
  for (unsigned i = 0; i < nv; ++i) part[i] = variant ? i & 1 : i < nv / 2;
}
}
static bool sameVtree(Vtree *a, Vtree *b) {
  if (sdd_vtree_is_leaf(a) || sdd_vtree_is_leaf(b)) return sdd_vtree_is_leaf(a) && sdd_vtree_is_leaf(b) && sdd_vtree_var(a) == sdd_vtree_var(b);
  return sameVtree(sdd_vtree_left(a), sdd_vtree_left(b)) && sameVtree(sdd_vtree_right(a), sdd_vtree_right(b));
}
struct Job {
  Uai u;
  VT vt;
  int n;
  bool given;                                // the vtree came from a file
  std::string uai;
  Capture out;
};
static Job *job;
static std::string form;                     // "directory|file": how the network file is named
static bool relative;
static void after(int code) {
  Job &j = *job;
  int n = j.n;
  std::vector<double> w(1u << n);
  double total = 0;
  bool any = false;
  for (Asg a = 0; a < (1u << n); ++a) {
    double x = 1;
    for (auto &f : j.u.fs) {
      double e = entry(f, a);
      if (e == 0) {
        x = 0;
        break;
      }
      x *= e;
    }
    w[a] = x;
    if (x != 0) total += x, any = true;
  }
  std::string pf = j.uai + ".psdd", vf = j.uai + ".vtree";
  if (!any) {
    std::ifstream p(pf);
    vp_assert(!p, "zero network: no PSDD is written");
    unlink(vf.c_str());
    unlink(j.uai.c_str());
    vp_cover("zero network");
    return;
  }
  vp_assert(code == 0, "exit status");
  {
    std::ifstream p(pf), v(vf);
    vp_assert(p && v, "files: the vtree and the PSDD are written beside the network file");
  }
  Vtree *v = sdd_vtree_read(vf.c_str());
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  PsddNode *r = m->ReadPsddFile(pf.c_str(), 0);
  unlink(pf.c_str()), unlink(vf.c_str()), unlink(j.uai.c_str());
  std::vector<SddLiteral> l;
  leaves(m->vtree(), &l);
  std::sort(l.begin(), l.end());
  vp_assert((int)l.size() == n, "files: the vtree has every variable");
  for (int i = 0; i < n; ++i) vp_assert(l[i] == i + 1, "files: the vtree has every variable");
  if (j.given) vp_assert(sameVtree(m->vtree(), j.vt.root), "files: the vtree is the one named");
  vp_assert(r != nullptr && conforms(r, m->vtree()), "files: the PSDD conforms to the vtree");
  for (Asg a = 0; a < (1u << n); ++a) {
    auto am = asgMap(j.vt.vars, a);
    vp_assert(nodeSupport(r, am) == (w[a] != 0), "files: the support is that of the product");
    if (w[a] != 0) vp_log_near(std::log(nodeWeight(r, am)), std::log(w[a] / total), TOL, "files: the normalised product of the factors");
  }
  std::istringstream in(j.out.end());
  std::string s, head = "Log Partition ";
  int seen = 0;
  while (std::getline(in, s))
    if (s.compare(0, head.size(), head) == 0) {
      ++seen;
      vp_log_near(std::strtod(s.c_str() + head.size(), nullptr), std::log(total), 1e-3, "output: the log partition function");
    }
  vp_assert(seen == 1, "output: the log partition function");
  vp_cover("compiled");
}
extern "C" void program_exit(int code) {
  after(code);
  vp_end();
}
// method 0: a vtree file; 1, 2, 4: a method of the program
static void program(int n, const VT &vt, Uai u, int method, int extra, const char *name = nullptr) {
  job = new Job;
  Job &j = *job;
  j.n = n, j.vt = vt, j.u = u;
  j.u.vars = n;
  j.given = method == 0;
  std::string f = textFile(uaiText(j.u)), dir = f.substr(0, f.rfind('/'));
  std::string path = dir;
  while ((int)path.size() < extra) path += "/.";
  j.uai = path + f.substr(f.rfind('/'));
  static const char *SUB[] = {"/in/d.e", "/in/.h", "/in/a..b", "/in", ""};
  std::string T = vp_tmp();
  T += ".d";
  if (!form.empty()) {
    for (int i = 5; i--;) mkdir((T + SUB[i]).c_str(), 0700);
    size_t bar = form.find('|');
    j.uai = T + "/in/" + form.substr(0, bar) + form.substr(bar + 1);
    if (relative) {
      if (chdir((T + "/in").c_str())) vp_assume(false);
      j.uai = form.substr(0, bar) + form.substr(bar + 1);
    }
    unlink(f.c_str());
    std::ofstream(j.uai) << uaiText(j.u);
  }
  std::string vf = vp_tmp();
  if (name) {
    // a name relative to the working directory
    if (chdir(vf.substr(0, vf.rfind('/')).c_str())) vp_assume(false);
    vf = name;
  }
  if (method == 0) sdd_vtree_save(vf.c_str(), vt.root);
  else vf = std::to_string(method);
  const char *av[] = {"uai_compiler", j.uai.c_str(), vf.c_str(), dir.c_str()};
  j.out.begin();
  int rc = program_main(method == 0 && !extra ? 3 : 4, av);
  if (method == 0) unlink(vf.c_str());
  after(rc);
}
static VT straight(int n, int sh) {
  std::vector<SddLiteral> v;
  for (int i = 0; i < n; ++i) v.push_back(sh & 1 ? n - i : i + 1);
  return mkVtree(v, 0);
}
static uint64_t zpat(int k, int arity) {
  static const uint64_t Z[] = {0, 1, 0x80808080, 6, 9, 0xfffffffe, 0x55, 0xff, 0x0f, 0x33};
  return Z[k % 10] & ((1u << (1u << arity)) - 1);
}
extern "C" void vtree_file() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), g = vp_choice("graph", n == 1 ? 4 : vp_tier() ? 60 : 20), z = vp_choice("zeros", n == 1 ? 4 : 10);
  VT vt = straight(n, g);
  auto ss = scopes(n, std::min(n, 2));
  Uai u;
  for (int i = 0; i < n; ++i) u.fs.push_back(makeFactor(vt, {i}, 0, true));
  for (int i = 0; i < 2; ++i) {
    auto &s = ss[(g * 3 + i * 5) % ss.size()];
    u.fs.push_back(makeFactor(vt, s, i == 0 ? zpat(z, s.size()) & 15 : zpat(g, s.size()), i == 1));
  }
  program(n, vt, u, 0, 0);
}
extern "C" void methods() {
  vp_mode("real", 1);
  static const int M[] = {1, 2, 4};
  int n = 1 + vp_choice("n", 3), m = vp_choice("method", 3), g = vp_choice("graph", vp_tier() ? 20 : 6), z = vp_choice("zeros", 4);
  variant = vp_choice("variant", 2);
  VT vt = straight(n, 0);
  auto ss = scopes(n, std::min(n, 2));
  Uai u;
  for (int i = 0; i < n; ++i) u.fs.push_back(makeFactor(vt, {i}, 0, true));
  for (int i = 0; i < 2; ++i) {
    auto &s = ss[(g * 3 + i * 5) % ss.size()];
    u.fs.push_back(makeFactor(vt, s, i == 0 ? zpat(z, s.size()) : 0, i == 1));
  }
  program(n, vt, u, M[m], 0);
}
extern "C" void names() {
  vp_mode("real", 1);
  static const int L[] = {100, 900, 985, 994, 1000, 2000, 3800};
  int k = vp_choice("length", 7), step = vp_choice("step", 8);
  VT vt = straight(2, 0);
  Uai u;
  u.fs.push_back(makeFactor(vt, {0, 1}, 0));
  program(2, vt, u, 0, L[k] + 2 * step);
}
// paths of every form: parent directories, several dots, no extension
extern "C" void paths() {
  vp_mode("real", 1);
  static const char *DIR[] = {"", "./", "../", ".././", "//", "d.e/", "d.e/../", ".h/", "a..b/"};
  static const char *FILE[] = {"net.uai", "net", "a.b.c", ".net", "net.", "n..t", "net.psdd", "net.vtree", "-n"};
  int d = vp_choice("directory", 9), f = vp_choice("file", 9);
  VT vt = straight(2, 0);
  Uai u;
  u.fs.push_back(makeFactor(vt, {0, 1}, 0));
  form = std::string(DIR[d]) + "|" + FILE[f];
  relative = vp_choice("relative", 2);
  program(2, vt, u, 0, 0);
}
// vtree files whose names look like methods
extern "C" void lookalikes() {
  vp_mode("real", 1);
  static const char *F[] = {"1.vtree", "2x", "40", "12", "0", "3", "01", "4 ", " 1", "-1", "one", "+2", "5"};
  VT vt = mkVtree({2, 3, 1}, vp_choice("shape", 2));
  Uai u;
  u.fs.push_back(makeFactor(vt, {0, 1}, 0));
  u.fs.push_back(makeFactor(vt, {2, 1}, 2));
  int k = vp_choice("file", 13);
  variant = vp_choice("variant", 2);
  program(3, vt, u, 0, 0, F[k]);
}
