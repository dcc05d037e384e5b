// P20: compiling a network gives the normalised product and the partition function.
#include "common.h"
#include "uai.h"
using namespace vph;
static std::pair<PsddNode *, PsddParameter> compile(PgmCompiler *c, int how) {
  switch (how) {
    case 0: return c->compile_network(1);
    case 1: return c->compile_network_with_vtree(1);
    case 2: return c->compile_network_with_vtree(2);
    case 3: return c->compile_network_with_vtree(100);
    case 4: return c->compile_network_dc(1);
    case 5: return c->compile_network_dc(2);
    default: return c->compile_network_dc(100);
  }
}
static void net(const VT &vt, int n, Uai &u, int how) {
  u.vars = 0;
  for (SddLiteral v : vt.vars) u.vars = std::max<int>(u.vars, v);
  double total = 0;
  uint32_t used = 0;
  std::vector<double> w(1u << n);
  for (auto &f : u.fs)
    for (int p : f.scope) used |= 1u << p;
  bool any = false;
  for (Asg a = 0; a < (1u << n); ++a) {
    double x = 1;
    for (auto &f : u.fs) {
      double e = entry(f, a);
      if (e == 0) {
        x = 0;
        break;
      }
      x *= e;
    }
    w[a] = x;
    if (x != 0) {
      any = true;
      if ((a & ~used) == 0) total += x;
    }
  }
  PgmCompiler *c = makeCompiler(u, vt);
  auto r = compile(c, how);
  if (!any) {
    vp_assert(r.first == nullptr, "zero network: the null PSDD");
    vp_assert(r.second.parameter() == NINF, "zero network: the constant zero");
    vp_cover("zero network");
    return;
  }
  vp_assert(r.first != nullptr && conforms(r.first, c->psdd_manager()->vtree()), "network: conforms to the vtree");
  double z = std::exp(r.second.parameter());
  for (Asg a = 0; a < (1u << n); ++a) {
    auto m = asgMap(vt.vars, a);
    vp_assert(nodeSupport(r.first, m) == (w[a] != 0), "network: the support is that of the product");
    if (w[a] != 0) vp_log_eq(nodeWeight(r.first, m) * z, w[a], "network: PSDD times constant is the product of the factors");
  }
  if (used == (1u << n) - 1) {
    vp_log_eq(z, total, "network: the constant is the partition function");
    vp_cover("partition function");
  }
  Bits mask, inst;
  std::vector<PsddNode *> ser = psdd_node_util::SerializePsddNodes(r.first);
  PsddParameter one = psdd_node_util::Evaluate(mask, inst, ser);
  if (used == (1u << n) - 1) vp_log_eq(one.parameter(), 0, "network: the PSDD is normalised");
  delete c->psdd_manager();
}
static uint64_t zpat(int k, int arity) {
  static const uint64_t Z[] = {0, 1, 0x80808080, 6, 9, 0xfffffffe, 0x55, 0xff, 0x0f, 0x33};
  return Z[k % 10] & ((1u << (1u << arity)) - 1);
}
// two variables: every pair of factors
extern "C" void two() {
  vp_mode("real", 1);
  auto ss = scopes(2, 2);
  int a = vp_choice("scope", ss.size()), b = vp_choice("scope", ss.size() + 1);
  int za = vp_choice("zeros", 1u << (1u << ss[a].size())), zb = b < (int)ss.size() ? vp_choice("zeros", ss[b].size() == 2 && !vp_tier() ? 8 : 1u << (1u << ss[b].size())) : 0;
  if (b < (int)ss.size() && ss[b].size() == 2 && !vp_tier()) zb = (zb * 5 + za) & 15;
  int how = vp_tier() ? (int)vp_choice("strategy", 7) : (za + zb + a + 2 * b) % 7;
  VT vt = mkVtree(varNames(2, (za >> 1) & 1), 0);
  Uai u;
  u.fs.push_back(makeFactor(vt, ss[a], za));
  if (b < (int)ss.size()) u.fs.push_back(makeFactor(vt, ss[b], zb));
  net(vt, 2, u, how);
}
// three variables, two or three factors
extern "C" void three() {
  vp_mode("real", 1);
  int sh = vp_choice("shape", 2), how = vp_choice("strategy", 7), g = vp_choice("graph", vp_tier() ? 160 : 40);
  VT vt = mkVtree(varNames(3, 0), sh);
  auto ss = chains(vt, 3, 2);
  Uai u;
  int k = 2 + g % 2, x = g;
  for (int i = 0; i < k; ++i) {
    auto &s = ss[(x * 7 + i * (3 + g % 5)) % ss.size()];
    int z = i == k - 1 ? (int)vp_choice("zeros", vp_tier() ? 10 : 4) : (g + i) % 10;
    // one factor with free entries (for larger ones two values), the others with one shared entry where not zero
    u.fs.push_back(makeFactor(vt, s, zpat(i == k - 1 ? z * 3 + g : z, s.size()), i != g % k));
  }
  net(vt, 3, u, how);
}
// more factors than variables, collections in between, contradictions at every place
extern "C" void contradiction() {
  vp_mode("real", 1);
  int n = 2 + vp_choice("n", 2), k = 2 + vp_choice("factors", 3), how = vp_choice("strategy", 7), at = vp_choice("place", 5);
  VT vt = mkVtree(varNames(n, 0), 0);
  Uai u;
  for (int i = 0; i < k; ++i) u.fs.push_back(makeFactor(vt, {i % n}, 0, i > 2));
  // two factors that exclude each other, or one that is zero everywhere
  if (at >= k) u.fs[at % k] = makeFactor(vt, {at % n}, 3);
  else {
    int o = (at + 1) % k, v = vp_choice("variable", n);
    u.fs[at] = makeFactor(vt, {v}, 1);
    u.fs[o] = makeFactor(vt, {v}, 2);
  }
  net(vt, n, u, how);
}
// factors over one-path vtrees with repeated scopes: the products collapse and are collected
extern "C" void many() {
  vp_mode("real", 1);
  int n = 3 + vp_choice("n", vp_tier() ? 2 : 1), how = vp_choice("strategy", 7), k = 4 + vp_choice("factors", 4), g = vp_choice("graph", vp_tier() ? 8 : 3);
  VT vt = mkVtree(varNames(n, 0), nShapes[n] - 1 - (g & 1));
  auto ss = chains(vt, n, 2);
  Uai u;
  for (int i = 0; i < k; ++i) {
    auto &s = ss[(g * 5 + i * 3) % ss.size()];
    // entries one or zero, except in one factor
    u.fs.push_back(makeFactor(vt, s, i % 3 == 1 ? 0 : zpat(g + i, s.size()) & ((1u << ((1u << s.size()) - 1)) - 1), i != g % k));
  }
  net(vt, n, u, how);
}
// no factor at all: the empty product
extern "C" void none() {
  vp_mode("real", 1);
  int n = 1 + vp_choice("n", 4), sh = vp_choice("shape", nShapes[n]), how = vp_choice("strategy", 7);
  VT vt = mkVtree(varNames(n, sh % 3), sh);
  Uai u;
  net(vt, n, u, how);
  vp_cover("empty");
}
