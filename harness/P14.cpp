// P14: probability arithmetic in the log domain.
#include "common.h"
#include <psdd/psdd_parameter.h>
using namespace vph;
typedef PsddParameter P;
static bool same(const P &a, const P &b) { return a.hash_value() == b.hash_value() && sameD(a.parameter(), b.parameter()); }
// three ways to ask, which must agree
static void order(const P &a, const P &b) {
  bool lt = a < b, gt = a > b, eq = a == b, ne = a != b;
  bool lt2 = b < a, gt2 = b > a, eq2 = b == a, ne2 = b != a;
  vp_assert(eq == eq2 && ne == ne2 && eq != ne, "comparison: equality is symmetric and the negation of inequality");
  vp_assert(lt == gt2 && gt == lt2, "comparison: smaller and larger are converse");
  vp_assert((int)lt + (int)gt + (int)eq == 1, "comparison: exactly one of smaller, equal, larger");
}
// real-number meaning, with every combination of zero and positive operands
extern "C" void real() {
  vp_mode("real", 1);
  vp_mode("eqfork", 1 << 20);
  int za = vp_choice("azero", 2), zb = vp_choice("bzero", 2);
  double a = za ? 0 : vp_real("a"), b = zb ? 0 : vp_real("b");
  P x = P::CreateFromDecimal(a), y = P::CreateFromDecimal(b);
  P l = P::CreateFromLog(za ? NINF : std::log(a));
  vp_assert(same(x, l), "construction from a number and from its logarithm agree");
  int op = vp_choice("op", 4);
  if (op == 3) {
    order(x, y);
    if (za && zb) vp_assert(x == y, "comparison: zero equals zero");
    else if (za || zb) vp_assert(x != y && (x < y) == (bool)za, "comparison: zero is below everything positive");
    else {
      if (a < b) vp_assert(x < y, "comparison: agrees with the order of the numbers");
      else if (a > b) vp_assert(x > y, "comparison: agrees with the order of the numbers");
      else vp_assert(x == y, "comparison: agrees with the order of the numbers");
    }
    vp_assert(same(P(), P::CreateFromDecimal(0)), "the default is zero");
    vp_cover("order");
    return;
  }
  P r = x, i = x;
  double want = 0;
  if (op == 0) {
    r = x + y, i += y;
    want = za ? b : zb ? a : a + b;
  } else if (op == 1) {
    r = x * y, i *= y;
    want = za || zb ? 0 : a * b;
  } else {
    vp_assume(!zb);
    r = x / y, i /= y;
    want = za ? 0 : a / b;
  }
  bool zero = op == 0 ? za && zb : op == 1 ? za || zb : za;
  if (zero) vp_assert(r.parameter() == NINF && r == P::CreateFromDecimal(0), "result is zero exactly when it should be");
  else {
    vp_assert(r.parameter() != NINF, "result is zero exactly when it should be");
    vp_log_eq(r.parameter(), std::log(want), "result is the real sum, product or quotient");
  }
  if (zero) vp_assert(i.parameter() == NINF, "in place: same result");
  else vp_log_eq(i.parameter(), r.parameter(), "in place: same result");
  P fresh = zero ? P::CreateFromDecimal(0) : P::CreateFromDecimal(want);
  vp_assert(r == fresh && !(r != fresh) && !(r < fresh) && !(r > fresh), "result compares like a freshly created value");
  vp_assert(i == fresh && !(i != fresh) && !(i < fresh) && !(i > fresh), "in place: result compares like a freshly created value");
  vp_assert(r.hash_value() == fresh.hash_value() && i.hash_value() == fresh.hash_value(), "hash of a result is the hash of a fresh value");
  // operands are left alone, and an operand may be its own right-hand side
  vp_assert(same(x, P::CreateFromDecimal(a)) && same(y, P::CreateFromDecimal(b)), "operands are left alone");
  if (!za) {
    P s = x;
    if (op == 0) {
      s += s;
      vp_log_eq(s.parameter(), std::log(a + a), "in place with itself");
    } else if (op == 1) {
      s *= s;
      vp_log_eq(s.parameter(), std::log(a * a), "in place with itself");
    } else {
      s /= s;
      vp_log_eq(s.parameter(), 0, "in place with itself");
      vp_assert(s == P::CreateFromDecimal(1), "in place with itself");
    }
  }
  vp_cover("arithmetic");
}
// bit-precise IEEE arithmetic on the logarithms; exp and log1p are used through their range contracts only
static double logValue(const char *name) {
  if (vp_choice("zero", 2)) return NINF;
  double x = vp_double(name);
  vp_assume(x >= -1e9 && x <= 1e9);
  return x;
}
extern "C" void ieee() {
  vp_mode("fp", 1);
  vp_mode("rlimit", vp_tier() ? 10 : 3);
  static const double B[] = {0, -0.5, -30};
  double a = logValue("a"), b;
  int op = vp_choice("op", 4);
  // both symbolic where the solver can settle it: the quick tier fixes the second operand of sums and comparisons
  if (op == 3 && !vp_tier()) b = vp_choice("zero", 2) ? NINF : B[vp_choice("b", 3)];
  else b = logValue("b");
  P x = P::CreateFromLog(a), y = P::CreateFromLog(b);
  if (op == 3) {
    order(x, y);
    if (vp_tier() && a == b) vp_assert(x == y, "comparison: equal values are equal");
    if (x < y) vp_assert(a < b, "comparison: agrees with the order of the numbers");
    vp_cover("order");
    return;
  }
  P r = x, i = x;
  if (op == 0) r = x + y, i += y;
  else if (op == 1) r = x * y, i *= y;
  else {
    vp_assume(b != NINF);
    r = x / y, i /= y;
  }
  double v = r.parameter();
  vp_assert(v == v, "no NaN from valid operands");
  vp_assert(i.parameter() == v, "in place: same result, bit for bit");
  P f = P::CreateFromLog(v);
  vp_assert(r.hash_value() == f.hash_value(), "result compares like a freshly created value");
  vp_assert(i.hash_value() == f.hash_value(), "in place: result compares like a freshly created value");
  if (op == 0 && !vp_tier()) {
    // the bounds on the sum are left to the thorough tier; the value itself is decided over the reals in "real"
  } else if (op == 0) {
    double m = a > b ? a : b;
    vp_assert(v >= m, "sum: at least the larger operand");
    if (m != NINF) vp_assert(v <= m + 0.6932, "sum: at most twice the larger operand");
    else vp_assert(v == NINF, "sum: zero plus zero is zero");
  } else if (op == 1) vp_assert(v == a + b, "product: sum of the logarithms");
  else vp_assert(v == a - b, "quotient: difference of the logarithms");
  vp_cover("arithmetic");
}
// values further apart than the resolution are told apart, equal ones are not
extern "C" void resolution() {
  vp_mode("fp", 1);
  vp_mode("rlimit", vp_tier() ? 100 : 5);
  static const double B[] = {0, -2e-7, -0.105360515657826, -0.693147180559945, -3.2, -31.5, -690};
  double a = vp_double("a"), b = vp_tier() && vp_choice("both", 2) ? vp_double("b") : B[vp_choice("b", 7)];
  vp_assume(a >= -700 && a <= 0 && b >= -700 && b <= 0);
  P x = P::CreateFromLog(a), y = P::CreateFromLog(b);
  if (vp_choice("far", 2)) {
    vp_assume(a <= b - 2.5e-7);
    vp_assert(x < y && x != y && !(y < x), "comparison: values a resolution apart are ordered");
    vp_cover("far");
  } else {
    vp_assume(a == b);
    vp_assert(x == y && !(x < y) && !(x > y), "comparison: equal values are equal");
    vp_cover("equal");
  }
}
