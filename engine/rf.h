// Exact algebra over positive real variables: rational functions kept as
//   coef * prod_i P_i^{e_i}
// with hash-consed, monic, content-free polynomials P_i.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

typedef uint32_t VarId;
struct Mono {
  std::vector<std::pair<VarId, uint32_t>> v;  // sorted by var, exps > 0
  bool operator==(const Mono &o) const { return v == o.v; }
};
// lex order, greatest first (so begin() of a Poly is the leading term)
struct MonoGreater {
  bool operator()(const Mono &a, const Mono &b) const {
    size_t i = 0;
    for (; i < a.v.size() && i < b.v.size(); ++i) {
      if (a.v[i].first != b.v[i].first) return a.v[i].first < b.v[i].first;
      if (a.v[i].second != b.v[i].second) return a.v[i].second > b.v[i].second;
    }
    return a.v.size() > b.v.size();
  }
};
typedef std::map<Mono, mpq_class, MonoGreater> Poly;

struct RatFun {
  mpq_class coef;                    // 0 => zero
  std::map<uint32_t, int> f;         // poly id -> exponent
  bool isConst() const { return f.empty() || coef == 0; }
  bool isZero() const { return coef == 0; }
  bool operator==(const RatFun &o) const { return coef == o.coef && (coef == 0 || f == o.f); }
};

namespace rf {
struct PolyInfo {
  Poly p;
  bool positive;  // every coefficient positive
};
extern std::vector<PolyInfo> polys;
uint32_t internPoly(const Poly &p);  // must be normalised
RatFun constant(const mpq_class &q);
RatFun var(VarId v);
RatFun mul(const RatFun &a, const RatFun &b);
RatFun inv(const RatFun &a);
RatFun div(const RatFun &a, const RatFun &b);
RatFun neg(const RatFun &a);
RatFun add(const RatFun &a, const RatFun &b);
RatFun sub(const RatFun &a, const RatFun &b);
RatFun pow(const RatFun &a, int e);
Poly mulPoly(const Poly &a, const Poly &b);
mpq_class evalPoly(const Poly &p, const std::vector<mpq_class> &w);
mpq_class eval(const RatFun &a, const std::vector<mpq_class> &w);
double evalD(const RatFun &a, const std::vector<double> &w);
bool allPositive(const RatFun &a);  // factors positive and coef > 0
std::string str(const RatFun &a);
}  // namespace rf
