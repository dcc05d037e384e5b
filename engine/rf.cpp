#include "rf.h"
#include <cmath>
#include <sstream>
namespace rf {
std::vector<PolyInfo> polys;
static std::map<std::string, uint32_t> internTab;

static std::string keyOf(const Poly &p) {
  std::string s;
  for (auto &t : p) {
    s += t.second.get_str();
    for (auto &x : t.first.v) {
      s += '*';
      s += std::to_string(x.first);
      s += '^';
      s += std::to_string(x.second);
    }
    s += '+';
  }
  return s;
}
uint32_t internPoly(const Poly &p) {
  std::string k = keyOf(p);
  auto it = internTab.find(k);
  if (it != internTab.end()) return it->second;
  bool pos = true;
  for (auto &t : p)
    if (t.second < 0) pos = false;
  uint32_t id = polys.size();
  polys.push_back({p, pos});
  internTab[k] = id;
  return id;
}
RatFun constant(const mpq_class &q) {
  RatFun r;
  r.coef = q;
  r.coef.canonicalize();
  return r;
}
RatFun var(VarId v) {
  Poly p;
  Mono m;
  m.v.push_back({v, 1});
  p[m] = 1;
  RatFun r;
  r.coef = 1;
  r.f[internPoly(p)] = 1;
  return r;
}
RatFun mul(const RatFun &a, const RatFun &b) {
  RatFun r;
  r.coef = a.coef * b.coef;
  if (r.coef == 0) return r;
  r.f = a.f;
  for (auto &x : b.f) {
    auto it = r.f.find(x.first);
    if (it == r.f.end()) r.f[x.first] = x.second;
    else {
      it->second += x.second;
      if (it->second == 0) r.f.erase(it);
    }
  }
  return r;
}
RatFun inv(const RatFun &a) {
  RatFun r;
  r.coef = 1 / a.coef;
  for (auto &x : a.f) r.f[x.first] = -x.second;
  return r;
}
RatFun div(const RatFun &a, const RatFun &b) { return mul(a, inv(b)); }
RatFun neg(const RatFun &a) {
  RatFun r = a;
  r.coef = -r.coef;
  return r;
}
RatFun pow(const RatFun &a, int e) {
  RatFun r = constant(1);
  RatFun b = e < 0 ? inv(a) : a;
  for (int i = 0; i < std::abs(e); ++i) r = mul(r, b);
  return r;
}
static Mono mulMono(const Mono &a, const Mono &b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.v.size() || j < b.v.size()) {
    if (j >= b.v.size() || (i < a.v.size() && a.v[i].first < b.v[j].first)) r.v.push_back(a.v[i++]);
    else if (i >= a.v.size() || b.v[j].first < a.v[i].first) r.v.push_back(b.v[j++]);
    else {
      r.v.push_back({a.v[i].first, a.v[i].second + b.v[j].second});
      ++i, ++j;
    }
  }
  return r;
}
static bool divMono(const Mono &a, const Mono &b, Mono &out) {
  out.v.clear();
  size_t i = 0, j = 0;
  while (i < a.v.size()) {
    if (j < b.v.size() && b.v[j].first == a.v[i].first) {
      if (a.v[i].second < b.v[j].second) return false;
      if (a.v[i].second > b.v[j].second) out.v.push_back({a.v[i].first, a.v[i].second - b.v[j].second});
      ++i, ++j;
    } else if (j < b.v.size() && b.v[j].first < a.v[i].first) return false;
    else out.v.push_back(a.v[i++]);
  }
  return j == b.v.size();
}
static void addTo(Poly &p, const Mono &m, const mpq_class &c) {
  auto it = p.find(m);
  if (it == p.end()) p.emplace(m, c);
  else {
    it->second += c;
    if (it->second == 0) p.erase(it);
  }
}
Poly mulPoly(const Poly &a, const Poly &b) {
  Poly r;
  for (auto &x : a)
    for (auto &y : b) addTo(r, mulMono(x.first, y.first), x.second * y.second);
  return r;
}
static bool divPoly(const Poly &a, const Poly &b, Poly &q) {
  q.clear();
  Poly r = a;
  const Mono &lm = b.begin()->first;
  const mpq_class &lc = b.begin()->second;
  int guard = 0;
  while (!r.empty()) {
    Mono m;
    if (!divMono(r.begin()->first, lm, m)) return false;
    if (++guard > 4000) return false;
    mpq_class c = r.begin()->second / lc;
    addTo(q, m, c);
    for (auto &t : b) addTo(r, mulMono(m, t.first), -(c * t.second));
  }
  return true;
}
// normalise a polynomial into coef * monomial * (monic content-free poly)
static RatFun fromPoly(Poly p) {
  RatFun r;
  if (p.empty()) {
    r.coef = 0;
    return r;
  }
  // common monomial
  std::map<VarId, uint32_t> mn;
  bool first = true;
  for (auto &t : p) {
    std::map<VarId, uint32_t> cur;
    for (auto &x : t.first.v) cur[x.first] = x.second;
    if (first) mn = cur, first = false;
    else {
      for (auto it = mn.begin(); it != mn.end();) {
        auto c = cur.find(it->first);
        if (c == cur.end()) it = mn.erase(it);
        else {
          if (c->second < it->second) it->second = c->second;
          ++it;
        }
      }
    }
  }
  Mono g;
  for (auto &x : mn) g.v.push_back({x.first, x.second});
  mpq_class lc = p.begin()->second;
  Poly n;
  for (auto &t : p) {
    Mono m;
    divMono(t.first, g, m);
    n.emplace(m, t.second / lc);
  }
  r.coef = lc;
  for (auto &x : g.v) {
    RatFun v = var(x.first);
    r.f[v.f.begin()->first] += x.second;
  }
  if (!(n.size() == 1 && n.begin()->first.v.empty())) r.f[internPoly(n)] += 1;
  return r;
}
static Poly expandPos(const RatFun &a) {  // all exponents >= 0
  Poly r;
  r[Mono()] = a.coef;
  for (auto &x : a.f)
    for (int i = 0; i < x.second; ++i) r = mulPoly(r, polys[x.first].p);
  return r;
}
RatFun add(const RatFun &a, const RatFun &b) {
  if (a.isZero()) return b;
  if (b.isZero()) return a;
  RatFun g;
  g.coef = 1;
  RatFun x, y;
  x.coef = a.coef;
  y.coef = b.coef;
  auto i = a.f.begin();
  auto j = b.f.begin();
  auto put = [&](uint32_t id, int ea, int eb) {
    int m = ea < eb ? ea : eb;
    if (m) g.f[id] = m;
    if (ea - m) x.f[id] = ea - m;
    if (eb - m) y.f[id] = eb - m;
  };
  while (i != a.f.end() || j != b.f.end()) {
    if (j == b.f.end() || (i != a.f.end() && i->first < j->first)) {
      put(i->first, i->second, 0);
      ++i;
    } else if (i == a.f.end() || j->first < i->first) {
      put(j->first, 0, j->second);
      ++j;
    } else {
      put(i->first, i->second, j->second);
      ++i, ++j;
    }
  }
  if (x.f == y.f) {
    RatFun r = g;
    r.coef = a.coef + b.coef;
    if (r.coef == 0) return constant(0);
    return mul(r, [&] {
      RatFun t;
      t.coef = 1;
      t.f = x.f;
      return t;
    }());
  }
  Poly s = expandPos(x);
  Poly t = expandPos(y);
  for (auto &m : t) addTo(s, m.first, m.second);
  if (s.empty()) return constant(0);
  RatFun r = constant(1);
  RatFun sp = fromPoly(s);
  // trial division by the denominators
  bool changed = true;
  RatFun res = mul(g, sp);
  while (changed) {
    changed = false;
    // find a numerator factor from sp that is divisible by a denominator factor
    for (auto &n : sp.f) {
      if (n.second <= 0) continue;
      const Poly &np = polys[n.first].p;
      if (np.size() < 2) continue;
      for (auto &d : res.f) {
        if (d.second >= 0 || d.first == n.first) continue;
        const Poly &dp = polys[d.first].p;
        if (dp.size() < 2 || dp.size() > np.size() * 4) continue;
        Poly q;
        if (divPoly(np, dp, q)) {
          RatFun qq = fromPoly(q);
          RatFun one;
          one.coef = 1;
          one.f[n.first] = 1;
          RatFun dd;
          dd.coef = 1;
          dd.f[d.first] = 1;
          sp = mul(mul(sp, inv(one)), qq);
          res = mul(mul(res, inv(one)), mul(qq, dd));
          changed = true;
          break;
        }
      }
      if (changed) break;
    }
  }
  return res;
}
RatFun sub(const RatFun &a, const RatFun &b) { return add(a, neg(b)); }
mpq_class evalPoly(const Poly &p, const std::vector<mpq_class> &w) {
  mpq_class s = 0;
  for (auto &t : p) {
    mpq_class m = t.second;
    for (auto &x : t.first.v)
      for (uint32_t k = 0; k < x.second; ++k) m *= w[x.first];
    s += m;
  }
  return s;
}
mpq_class eval(const RatFun &a, const std::vector<mpq_class> &w) {
  mpq_class r = a.coef;
  for (auto &x : a.f) {
    mpq_class v = evalPoly(polys[x.first].p, w);
    if (x.second < 0 && v == 0) return 0;
    for (int i = 0; i < std::abs(x.second); ++i) {
      if (x.second > 0) r *= v;
      else r /= v;
    }
  }
  return r;
}
double evalD(const RatFun &a, const std::vector<double> &w) {
  double r = a.coef.get_d();
  for (auto &x : a.f) {
    double s = 0;
    for (auto &t : polys[x.first].p) {
      double m = t.second.get_d();
      for (auto &y : t.first.v) m *= std::pow(w[y.first], (double)y.second);
      s += m;
    }
    r *= std::pow(s, x.second);
  }
  return r;
}
bool allPositive(const RatFun &a) {
  if (a.coef <= 0) return false;
  for (auto &x : a.f)
    if (!polys[x.first].positive && (x.second & 1)) return false;
  return true;
}
std::string str(const RatFun &a) {
  std::ostringstream o;
  o << a.coef.get_str();
  for (auto &x : a.f) {
    o << "*(";
    bool first = true;
    for (auto &t : polys[x.first].p) {
      if (!first) o << "+";
      first = false;
      o << t.second.get_str();
      for (auto &y : t.first.v) {
        o << "*x" << y.first;
        if (y.second > 1) o << "^" << y.second;
      }
    }
    o << ")^" << x.second;
  }
  return o.str();
}
}  // namespace rf
