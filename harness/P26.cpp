// P26: the inference program reports exactly the conditioned distribution.
#include "common.h"
#include "capture.h"
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
using namespace vph;
extern "C" int program_main(int argc, const char *argv[]);
static const double TOL = 1e-3;              // six significant digits
struct Job {
  std::vector<SddLiteral> vars;
  std::vector<double> w;                     // weight of every assignment after the evidence
  bool mpe, mar;
  double z = 0;
  Capture out;
};
static Job *job;
static double number(std::istringstream &s, const char *end) {
  std::string t;
  int c;
  while ((c = s.get()) != EOF && c != end[0]) t += (char)c;
  vp_assert(c != EOF && !t.empty(), "output: numbers are separated");
  char *e;
  double d = std::strtod(t.c_str(), &e);
  vp_assert(!*e, "output: numbers are readable");
  return d;
}
static void near(double got, double want, const char *what) {
  if (want == 0) vp_assert(got == NINF, what);
  else {
    vp_assert(got != NINF, what);
    vp_log_near(got, std::log(want), TOL, what);
  }
}
// the one result line that starts with head (progress messages may be around it)
static std::vector<std::string> results(const std::string &out, const std::string &head) {
  std::vector<std::string> r;
  std::istringstream in(out);
  std::string l;
  while (std::getline(in, l))
    if (l.compare(0, head.size(), head) == 0) r.push_back(l.substr(head.size()));
  return r;
}
static std::string line(const std::string &out, const char *head) {
  auto r = results(out, head);
  vp_assert(r.size() == 1, "output: every result once, on its own line");
  return r[0];
}
static void after(int code) {
  Job &j = *job;
  std::string in = j.out.end();
  vp_assert(code == 0, "exit status");
  int n = j.vars.size();
  bool unsat = j.z == 0;
  vp_assert(results(in, "MPE result=").size() == (j.mpe && !unsat) && results(in, "MPE pr=").size() == (j.mpe && !unsat) &&
            results(in, "MAR result=").size() == (j.mar && !unsat) && results(in, "UNSATISFIED").size() == unsat, "output: the results asked for");
  if (unsat) {
    vp_cover("unsatisfied");
  } else {
    std::vector<SddLiteral> sorted = j.vars;
    std::sort(sorted.begin(), sorted.end());
    if (j.mpe) {
      std::istringstream s(line(in, "MPE result="));
      Asg best = 0;
      for (SddLiteral v : sorted) {
        double name = number(s, ":"), val = number(s, ",");
        vp_assert(name == v && (val == 0 || val == 1), "MPE: every variable once, in order");
        for (int i = 0; i < n; ++i)
          if (j.vars[i] == v && val == 1) best |= 1u << i;
      }
      vp_assert(s.get() == EOF, "MPE: nothing after the last variable");
      vp_assert(j.w[best] != 0, "MPE: an assignment of positive probability");
      double lw = std::log(j.w[best]);
      for (Asg a = 0; a < (1u << n); ++a)
        if (j.w[a] != 0) vp_log_le(std::log(j.w[a]), lw, "MPE: a most probable assignment");
      std::istringstream p(line(in, "MPE pr=") + "\n");
      near(number(p, "\n"), j.w[best] / j.z, "MPE: its log probability");
      vp_cover("mpe");
    }
    if (j.mar) {
      std::istringstream s(line(in, "MAR result="));
      for (SddLiteral v : sorted) {
        double name = number(s, ":"), f = number(s, "|"), t = number(s, ",");
        vp_assert(name == v, "MAR: every variable once, in order");
        double wf = 0, wt = 0;
        for (Asg a = 0; a < (1u << n); ++a)
          for (int i = 0; i < n; ++i)
            if (j.vars[i] == v) (a >> i & 1 ? wt : wf) += j.w[a];
        near(f, wf / j.z, "MAR: log probability of false");
        near(t, wt / j.z, "MAR: log probability of true");
      }
      vp_assert(s.get() == EOF, "MAR: nothing after the last variable");
      vp_cover("mar");
    }
  }
}
extern "C" void program_exit(int code) {
  after(code);
  vp_end();
}
static std::string num(double p) { return p == NINF ? "-inf" : vp_text_real(p); }
static std::string psddText(PsddNode *r) {
  std::map<PsddNode *, int> id;
  std::string t;
  std::function<void(PsddNode *)> rec = [&](PsddNode *n) {
    if (id.count(n)) return;
    PsddDecisionNode *d = n->psdd_decision_node();
    if (d)
      for (size_t i = 0; i < d->primes().size(); ++i) rec(d->primes()[i]), rec(d->subs()[i]);
    int k = id.size();
    id[n] = k;
    std::string at = std::to_string(k) + " " + std::to_string(sdd_vtree_position(n->vtree_node())) + " ";
    if (PsddLiteralNode *l = n->psdd_literal_node()) t += "L " + at + std::to_string(l->literal()) + "\n";
    else if (PsddTopNode *p = n->psdd_top_node())
      t += "T " + at + std::to_string(p->variable_index()) + " " + num(p->false_parameter().parameter()) + " " + num(p->true_parameter().parameter()) + "\n";
    else {
      t += "D " + at + std::to_string(d->primes().size());
      for (size_t i = 0; i < d->primes().size(); ++i)
        t += " " + std::to_string(id[d->primes()[i]]) + " " + std::to_string(id[d->subs()[i]]) + " " + num(d->parameters()[i].parameter());
      t += "\n";
    }
  };
  rec(r);
  return "c comment\npsdd " + std::to_string(id.size()) + "\n" + t;
}
static const char *save(const std::string &t) {
  const char *fn = vp_tmp();
  std::ofstream o(fn, std::ios::binary);
  o << t;
  o.close();
  return fn;
}
using Cl = std::vector<int>;                 // literals: +-(position+1)
static void program(int n, int sh, uint64_t sup, int zg, int zw, bool evid, const std::vector<Cl> &cls, int queries, int order) {
  VT vt = mkVtree(varNames(n, sh & 1), sh);
  PsddManager *m = mkManager(vt);
  Builder b(m, vt.vars);
  b.style = sup % 2;
  b.pol.normalised = true;
  b.pol.zeroAt = zg, b.pol.zeroWhich = zw;
  Ref *r = b.build(m->vtree(), table(sup, n));
  job = new Job;
  Job &j = *job;
  j.vars = vt.vars;
  j.mpe = queries & 1, j.mar = queries >> 1 & 1;
  bool any = false;
  for (Asg a = 0; a < (1u << n); ++a) {
    bool ok = true;
    for (auto &c : cls) {
      bool s = false;
      for (int l : c) s = s || (a >> (std::abs(l) - 1) & 1) == (l > 0);
      ok = ok && s;
    }
    double w = ok ? refWeight(r, a) : 0;
    j.w.push_back(w);
    if (w != 0) j.z += w, any = true;
  }
  std::string fp = save(psddText(r->node)), fc, fv = vp_tmp();
  sdd_vtree_save(fv.c_str(), vt.root);
  if (evid) {
    std::string t = "c evidence\np cnf " + std::to_string(n) + " " + std::to_string(cls.size()) + "\n";
    for (auto &c : cls) {
      for (int l : c) t += std::to_string((l > 0 ? 1 : -1) * vt.vars[std::abs(l) - 1]) + " ";
      t += "0\n";
    }
    fc = save(t);
  }
  std::vector<std::string> opts, args = {"psdd_inference"};
  if (j.mpe) opts.push_back("--mpe_query");
  if (j.mar) opts.push_back("--mar_query");
  if (evid && order & 2) opts.push_back("--cnf_evid=" + fc);
  else if (evid) opts.push_back("--cnf_evid"), opts.push_back(fc);
  if (order & 1 && !evid) std::reverse(opts.begin(), opts.end());
  else if (order & 1) std::rotate(opts.begin(), opts.begin() + j.mpe + j.mar, opts.end());
  args.insert(args.end(), opts.begin(), opts.end());
  args.push_back(fp);
  args.push_back(fv);
  std::vector<const char *> av;
  for (auto &s : args) av.push_back(s.c_str());
  j.out.begin();
  program_main(av.size(), av.data());
  after(0);
}
extern "C" void plain() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n < 3 ? vp_choice("support", supportCount(n)) : vp_tier() ? vp_choice("support", supportCount(n)) : 254 - 23 * vp_choice("support", 11);
  int q = vp_choice("queries", 4), o = vp_tier() || n < 3 ? (int)vp_choice("order", 2) : (int)(k & 1);
  program(n, sh, support(n, k), -1, 0, false, {}, q, o);
}
static Cl clause(int n, int k) {             // k-th of the 3^n consistent clauses
  Cl c;
  for (int i = 0; i < n; ++i, k /= 3)
    if (k % 3) c.push_back(k % 3 == 1 ? i + 1 : -i - 1);
  return c;
}
extern "C" void evidence() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 3), sh = vp_choice("shape", nShapes[n]), m = n == 1 ? 3 : n == 2 ? 9 : 27;
  uint64_t k = n < 3 ? vp_choice("support", supportCount(n)) : 254 - 31 * vp_choice("support", vp_tier() ? 8 : 3);
  int cn = vp_choice("clauses", 3);
  std::vector<Cl> cls;
  for (int i = 0; i < cn; ++i) {
    int x = n < 3 || i == 0 || vp_tier() ? (int)vp_choice("clause", m) : (int)(k + cls[0].size() * 7 + (cls[0].empty() ? 0 : cls[0][0] + 3)) % m;
    cls.push_back(clause(n, x));
  }
  int q = n == 3 && !vp_tier() ? 3 : 1 + (k + cn) % 3;
  program(n, sh, support(n, k), -1, 0, true, cls, q, (k + sh + cn) % 4);
}
extern "C" void zeros() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), sh = vp_choice("shape", nShapes[n]);
  uint64_t k = n == 2 ? vp_choice("support", supportCount(n)) : 254 - 37 * vp_choice("support", vp_tier() ? 6 : 2);
  int zg = vp_choice("zgroup", 3), zw = vp_choice("zwhich", 2), q = 1 + vp_choice("queries", 3);
  program(n, sh, support(n, k), zg, zw, false, {}, q, 0);
}
