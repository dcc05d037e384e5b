#include "engine.h"
#include <cmath>
#include <algorithm>
#include <limits>
#include <random>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instruction.h>
using namespace llvm;

Z3_context Z;
bool realMode = false, fpMode = false, magicOn = false, intMagicOn = false;
int specDepth = 0;
static Z3_solver S;
static Z3_model M = nullptr;
static Z3_sort bvSorts[65], boolS, realS, fpS;
static Z3_ast tTrue, tFalse, rne, rtz;
static std::mt19937_64 rng(12345);

static void z3err(Z3_context c, Z3_error_code e) { pathError(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static Z3_sort bvs(unsigned w) {
  if (!bvSorts[w]) bvSorts[w] = Z3_mk_bv_sort(Z, w);
  return bvSorts[w];
}
static void setRlimit(Z3_solver s, unsigned r) {
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), r);
  Z3_solver_set_params(Z, s, p);
  Z3_params_dec_ref(Z, p);
}
void symInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(Z, z3err);
  S = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, S);
  boolS = Z3_mk_bool_sort(Z);
  realS = Z3_mk_real_sort(Z);
  fpS = Z3_mk_fpa_sort_double(Z);
  tTrue = Z3_mk_true(Z);
  tFalse = Z3_mk_false(Z);
  rne = Z3_mk_fpa_rne(Z);
  rtz = Z3_mk_fpa_rtz(Z);
  setRlimit(S, rlimitBranch);
  const char *sd = getenv("VERIF_SEED");
  rng.seed(sd ? 1000 + atol(sd) : 1001);
}
static int check(Z3_solver s, Z3_model *m) {
  double t0 = nowS();
  Z3_lbool r = Z3_solver_check(Z, s);
  double dt = nowS() - t0;
  if (getenv("VP_SLOW") && dt > atof(getenv("VP_SLOW"))) fprintf(stderr, "[slow %.1fs r=%d] %s\n%s\n", dt, (int)r, stackTrace().c_str(), Z3_solver_to_string(Z, s));
  __sync_fetch_and_add(&sh->queries, 1);
  shLock();
  sh->solverS += dt;
  if (dt > sh->maxQ) sh->maxQ = dt;
  shUnlock();
  if (r == Z3_L_TRUE) {
    __sync_fetch_and_add(&sh->qsat, 1);
    if (m) {
      *m = Z3_solver_get_model(Z, s);
      Z3_model_inc_ref(Z, *m);
    }
    return 1;
  }
  if (r == Z3_L_FALSE) {
    __sync_fetch_and_add(&sh->qunsat, 1);
    return 0;
  }
  __sync_fetch_and_add(&sh->qunknown, 1);
  return -1;
}
// ------------------------------------------------------------------ bit-vectors
static Val newExpr(EK k, unsigned w, Z3_ast a) {
  Expr *e = new Expr;
  e->k = k;
  e->w = w;
  e->a = a;
  return Val{0, e};
}
static bool numeral(Z3_ast a, uint64_t *out) {
  Z3_ast_kind k = Z3_get_ast_kind(Z, a);
  if (k == Z3_NUMERAL_AST) return Z3_get_numeral_uint64(Z, a, out);
  return false;
}
Val bvVal(Z3_ast a, unsigned w) {
  a = Z3_simplify(Z, a);
  if (w == 1) {
    Z3_lbool b = Z3_get_bool_value(Z, a);
    if (b == Z3_L_TRUE) return C(1);
    if (b == Z3_L_FALSE) return C(0);
  } else {
    uint64_t n;
    if (numeral(a, &n)) return C(n);
  }
  return newExpr(E_BV, w, a);
}
Z3_ast boolAst(Val v) {
  if (!v.e) return v.v & 1 ? tTrue : tFalse;
  if (v.e->k != E_BV) pathError("boolAst of non-bv");
  return v.e->a;
}
Z3_ast bvAst(Val v, unsigned w) {
  if (!v.e) {
    if (w == 1) return Z3_mk_unsigned_int64(Z, v.v & 1, bvs(1));
    return Z3_mk_unsigned_int64(Z, v.v & maskW(w), bvs(w));
  }
  if (v.e->k == E_FP) return Z3_mk_fpa_to_ieee_bv(Z, v.e->a);
  if (v.e->k != E_BV) pathError("bit-level use of a real-valued symbol");
  if (w == 1) return Z3_mk_ite(Z, v.e->a, Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1)));
  return v.e->a;
}
bool isRealKind(const Expr *e) { return e && (e->k == E_REAL || e->k == E_SLOG || e->k == E_HASH); }
static uint64_t pseudoHash(const Expr *e) {
  std::string s = rf::str(e->r) + "|" + e->scale.get_str();
  uint64_t h = 1469598103934665603ull;
  for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull;
  return h;
}
static Val hashConc(Val v) {
  if (v.e && v.e->k == E_HASH) return C(pseudoHash(v.e));
  if (v.e && v.e->k == E_RC) return C(decide(v));
  return v;
}
Val bvBin(unsigned op, Val a, Val b, unsigned w) {
  if (w == 1 && op == Instruction::Xor) {
    if (!a.e && (a.v & 1)) return notVal(b);
    if (!b.e && (b.v & 1)) return notVal(a);
    if (!a.e && !(a.v & 1)) return b;
    if (!b.e && !(b.v & 1)) return a;
  }
  if (w == 1 && op == Instruction::And) {
    if ((!a.e && !(a.v & 1)) || (!b.e && !(b.v & 1))) return C(0);
    if (!a.e) return b;
    if (!b.e) return a;
  }
  if (w == 1 && op == Instruction::Or) {
    if ((!a.e && (a.v & 1)) || (!b.e && (b.v & 1))) return C(1);
    if (!a.e) return b;
    if (!b.e) return a;
  }
  a = hashConc(a);
  b = hashConc(b);
  if (isRealKind(a.e) || isRealKind(b.e)) pathError("integer operation on a real-valued symbol");
  if (!a.e && !b.e) {
    uint64_t x = a.v, y = b.v, r = 0;
    switch (op) {
      case Instruction::Add: r = x + y; break;
      case Instruction::Sub: r = x - y; break;
      case Instruction::Mul: r = x * y; break;
      case Instruction::And: r = x & y; break;
      case Instruction::Or: r = x | y; break;
      case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = x << y; break;
      case Instruction::LShr: r = (x & maskW(w)) >> y; break;
      default: pathError("bvBin const");
    }
    return C(r & maskW(w));
  }
  if (w == 1) {
    Z3_ast x = boolAst(a), y = boolAst(b);
    Z3_ast xs[2] = {x, y};
    switch (op) {
      case Instruction::And: return bvVal(Z3_mk_and(Z, 2, xs), 1);
      case Instruction::Or: return bvVal(Z3_mk_or(Z, 2, xs), 1);
      case Instruction::Add: case Instruction::Sub:
      case Instruction::Xor: return bvVal(Z3_mk_xor(Z, x, y), 1);
      case Instruction::Mul: return bvVal(Z3_mk_and(Z, 2, xs), 1);
      default: pathError("bvBin i1");
    }
  }
  Z3_ast x = bvAst(a, w), y = bvAst(b, w), r;
  switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break;
    case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break;
    case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    default: pathError("bvBin op");
  }
  return bvVal(r, w);
}
static int cmpFlip(int s) { return -s; }
Val notVal(Val c) {
  if (!c.e) return C(!(c.v & 1));
  if (c.e->k == E_RC) {
    Expr *e = new Expr(*c.e);
    e->tag = 0;
    switch (e->pred) {
      case R_GT: e->pred = R_GE; e->r = rf::neg(e->r); break;
      case R_GE: e->pred = R_GT; e->r = rf::neg(e->r); break;
      case R_EQ: e->pred = R_NE; break;
      case R_NE: e->pred = R_EQ; break;
    }
    return Val{0, e};
  }
  return bvVal(Z3_mk_not(Z, boolAst(c)), 1);
}
static Val mkRC(RPred p, const RatFun &r) {
  if (r.isConst()) {
    int s = sgn(r.coef);
    switch (p) {
      case R_GT: return C(s > 0);
      case R_GE: return C(s >= 0);
      case R_EQ: return C(s == 0);
      case R_NE: return C(s != 0);
    }
  }
  Expr *e = new Expr;
  e->k = E_RC;
  e->w = 1;
  e->r = r;
  e->pred = p;
  return Val{0, e};
}
// log/real to a canonical comparison: sign of (a - b) as a RatFun
static const double HSCALE = 1e7;
bool resolution;
static bool hashOfConst(uint64_t h, RatFun *t) {  // concrete hash value -> the real it stands for (log scale 1)
  int64_t s = (int64_t)h;
  if (s == INT64_MIN) { *t = rf::constant(0); return true; }
  if (s == 0) { *t = rf::constant(1); return true; }
  if (std::abs((double)s) > 1e13) return false;
  *t = rf::constant(qd(std::exp((double)s / HSCALE)));
  return true;
}
Val bvCmp(unsigned pred, Val a, Val b, unsigned w) {
  bool ha = a.e && a.e->k == E_HASH, hb = b.e && b.e->k == E_HASH;
  if (ha || hb) {
    RatFun ta, tb;
    bool ok = true;
    if (ha) ta = a.e->r; else ok = hashOfConst(a.v, &ta);
    if (hb) tb = b.e->r; else ok = ok && hashOfConst(b.v, &tb);
    if ((!ha && a.e) || (!hb && b.e)) pathError("hash compared with a bit-vector");
    if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
      bool eq = pred == CmpInst::ICMP_EQ;
      if (!ok) return C(!eq);
      if (resolution && ((!ha && a.v == 0) || (!hb && b.v == 0))) {
        // hash zero exactly when |log| < 1e-7
        const RatFun &t = ha ? ta : tb;
        bool near = decide(mkRC(R_GT, rf::sub(t, rf::constant(qd(std::exp(-1e-7)))))) && decide(mkRC(R_GT, rf::sub(rf::constant(qd(std::exp(1e-7))), t)));
        return C(near == eq);
      }
      // a finite log never hashes like -inf, a generic one never like another constant
      if (ta.isZero() || tb.isZero()) return C(eq ? (ta.isZero() && tb.isZero()) : !(ta.isZero() && tb.isZero()));
      return mkRC(eq ? R_EQ : R_NE, rf::sub(ta, tb));
    }
    if (!ok) pathError("hash ordered against an arbitrary integer");
    bool swap = pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SGT || pred == CmpInst::ICMP_SLE;
    bool neg = pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SGE || pred == CmpInst::ICMP_SLE;
    bool sg = pred >= CmpInst::ICMP_SGT;
    if (swap) std::swap(ta, tb);
    Val r;
    if (sg) r = mkRC(R_GT, rf::sub(tb, ta));
    else {
      // unsigned: [1,inf) maps to small integers, (0,1) to large ones, 0 to 2^63
      auto cls = [&](const RatFun &t) {
        if (t.isZero()) return 1;
        return decide(mkRC(R_GE, rf::sub(t, rf::constant(1)))) ? 0 : 2;
      };
      int ca = cls(ta), cb = cls(tb);
      if (ca != cb) r = C(ca < cb);
      else r = mkRC(R_GT, rf::sub(tb, ta));
    }
    return neg ? notVal(r) : r;
  }
  a = hashConc(a);
  b = hashConc(b);
  if (isRealKind(a.e) || isRealKind(b.e)) pathError("integer comparison of a real-valued symbol");
  if (w == 1) {
    Z3_ast x = boolAst(a), y = boolAst(b);
    switch (pred) {
      case CmpInst::ICMP_EQ: return bvVal(Z3_mk_iff(Z, x, y), 1);
      case CmpInst::ICMP_NE: return bvVal(Z3_mk_xor(Z, x, y), 1);
      default: break;
    }
    Z3_ast xb = bvAst(a, 1), yb = bvAst(b, 1);
    switch (pred) {
      case CmpInst::ICMP_ULT: return bvVal(Z3_mk_bvult(Z, xb, yb), 1);
      case CmpInst::ICMP_UGT: return bvVal(Z3_mk_bvugt(Z, xb, yb), 1);
      case CmpInst::ICMP_ULE: return bvVal(Z3_mk_bvule(Z, xb, yb), 1);
      case CmpInst::ICMP_UGE: return bvVal(Z3_mk_bvuge(Z, xb, yb), 1);
      default: pathError("bvCmp i1");
    }
  }
  Z3_ast x = bvAst(a, w), y = bvAst(b, w), r;
  switch (pred) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break;
    case CmpInst::ICMP_NE: r = Z3_mk_not(Z, Z3_mk_eq(Z, x, y)); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break;
    case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
    default: pathError("bvCmp pred");
  }
  return bvVal(r, 1);
}
Val bvCast(unsigned op, Val a, unsigned from, unsigned to) {
  if (a.e->k == E_RC) {
    uint64_t b = decide(a);
    if (op == Instruction::SExt) return C(b ? maskW(to) : 0);
    return C(b);
  }
  if (a.e->k == E_FP && op == Instruction::BitCast) return a;
  if (a.e->k == E_FP) pathError("cast of fp bits");
  a = hashConc(a);
  if (isRealKind(a.e)) {
    if (op == Instruction::BitCast) return a;
    pathError("integer cast of a real-valued symbol");
  }
  if (!a.e) {
    if (op == Instruction::SExt) {
      int64_t s = (int64_t)(a.v << (64 - from)) >> (64 - from);
      return C((uint64_t)s & maskW(to));
    }
    return C(a.v & maskW(std::min(from, to)));
  }
  switch (op) {
    case Instruction::ZExt:
      if (from == 1) return bvVal(Z3_mk_ite(Z, boolAst(a), bvAst(C(1), to), bvAst(C(0), to)), to);
      return bvVal(Z3_mk_zero_ext(Z, to - from, bvAst(a, from)), to);
    case Instruction::SExt:
      if (from == 1) return bvVal(Z3_mk_ite(Z, boolAst(a), bvAst(C(maskW(to)), to), bvAst(C(0), to)), to);
      return bvVal(Z3_mk_sign_ext(Z, to - from, bvAst(a, from)), to);
    case Instruction::Trunc:
      if (to == 1) return bvVal(Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, bvAst(a, from)), bvAst(C(1), 1)), 1);
      return bvVal(Z3_mk_extract(Z, to - 1, 0, bvAst(a, from)), to);
    default: return a;  // ptrtoint, inttoptr, bitcast
  }
}
bool sameVal(Val a, Val b) {
  if (!a.e && !b.e) return a.v == b.v;
  if (!a.e || !b.e) return false;
  if (a.e == b.e) return true;
  if (a.e->k != b.e->k) return false;
  switch (a.e->k) {
    case E_BV: case E_FP: return Z3_is_eq_ast(Z, a.e->a, b.e->a);
    case E_RC: return a.e->pred == b.e->pred && a.e->r == b.e->r;
    default:
      if (a.e->scale != b.e->scale) return false;
      if (a.e->r == b.e->r) return true;
      return rf::sub(a.e->r, b.e->r).isZero();
  }
}
Val bvIte(Val c, Val a, Val b, unsigned w) {
  if (!c.e) return c.v & 1 ? a : b;
  if (sameVal(a, b)) return a;
  if (c.e->k == E_RC) return decide(c) ? a : b;
  if (a.e && (isRealKind(a.e) || a.e->k == E_RC)) return decide(c) ? a : b;
  if (b.e && (isRealKind(b.e) || b.e->k == E_RC)) return decide(c) ? a : b;
  if (w == 0) return decide(c) ? a : b;  // pointers: keep addresses concrete
  if ((a.e && a.e->k == E_FP) || (b.e && b.e->k == E_FP)) {
    auto t = [&](Val x) { return x.e && x.e->k == E_FP ? x.e->a : Z3_mk_fpa_to_fp_bv(Z, bvAst(x, 64), fpS); };
    return newExpr(E_FP, 64, Z3_simplify(Z, Z3_mk_ite(Z, boolAst(c), t(a), t(b))));
  }
  if (w == 1) return bvVal(Z3_mk_ite(Z, boolAst(c), boolAst(a), boolAst(b)), 1);
  return bvVal(Z3_mk_ite(Z, boolAst(c), bvAst(a, w), bvAst(b, w)), w);
}
Val bvExtractByte(Val a, unsigned w, unsigned i) {
  if (!a.e) return C((a.v >> (8 * i)) & 255);
  if (w == 1) return bvCast(Instruction::ZExt, a, 1, 8);
  if (w < 8) a = bvCast(Instruction::ZExt, a, w, 8), w = 8;
  if (w == 8) return a;
  return bvVal(Z3_mk_extract(Z, 8 * i + 7, 8 * i, bvAst(a, w)), 8);
}
// ------------------------------------------------------------------ reals
mpq_class qd(double d) {
  mpq_class q;
  mpq_set_d(q.get_mpq_t(), d);
  return q;
}
struct VarB { bool hasLo = false, hasHi = false; mpq_class lo, hi; };
static std::vector<VarB> varB;
static std::vector<Z3_ast> realTerm;
std::vector<mpq_class> witness;
static std::vector<uint8_t> fact;                       // per poly: mask of possible signs 1:- 2:0 4:+
static std::vector<std::pair<uint32_t, uint8_t>> facts;  // constraints in force
static std::unordered_map<uint32_t, Z3_ast> polyTerm;

Val mkReal(const RatFun &r) {
  if (r.isConst() && !realMode) return CD(r.coef.get_d());
  if (r.isZero()) return CD(0);
  if (r.isConst() && qd(r.coef.get_d()) == r.coef) return CD(r.coef.get_d());
  Expr *e = new Expr;
  e->k = E_REAL;
  e->r = r;
  return Val{0, e};
}
Val mkLog(const RatFun &r0, const mpq_class &sc0) {
  RatFun r = r0;
  mpq_class sc = sc0;
  if (sc == 0) return CD(0);
  if (r.isZero()) return CD(sgn(sc) > 0 ? -INFINITY : INFINITY);
  if (r.isConst() && r.coef == 1) return CD(0);
  if (sc.get_den() == 1 && abs(sc) <= 64 && sc != 1) {
    r = rf::pow(r, (int)sc.get_num().get_si());
    sc = 1;
  }
  Expr *e = new Expr;
  e->k = E_SLOG;
  e->r = r;
  e->scale = sc;
  return Val{0, e};
}
static Val freshRealVar(double wit) {
  VarId v = witness.size();
  witness.push_back(qd(wit));
  varB.push_back(VarB());
  char nm[32];
  snprintf(nm, sizeof nm, "x%u", v);
  realTerm.push_back(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), realS));
  return mkReal(rf::var(v));
}
static double randWeight() {
  static const int c[] = {1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97};
  return c[rng() % 26];
}
Val freshReal(const char *name) {
  Val v = freshRealVar(randWeight() + (double)(witness.size() % 7) / 8);
  Event ev;
  ev.kind = 'r';
  ev.name = name;
  ev.var = witness.size() - 1;
  events.push_back(ev);
  return v;
}
Val freshBV(const char *name, unsigned w) {
  char nm[64];
  snprintf(nm, sizeof nm, "%s!%zu", name, events.size());
  Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), w == 1 ? boolS : bvs(w));
  Event ev;
  ev.kind = 'b';
  ev.name = name;
  ev.w = w;
  ev.a = a;
  events.push_back(ev);
  return newExpr(E_BV, w, a);
}
static uint8_t getFact(uint32_t id) {
  if (rf::polys[id].positive) return 4;
  if (fact.size() <= id) fact.resize(id + 64, 7);
  return fact[id];
}
// mask of possible signs of r given the facts
static uint8_t signMask(const RatFun &r) {
  if (r.isZero()) return 2;
  int s = sgn(r.coef);
  bool zero = false, both = false;
  for (auto &f : r.f) {
    uint8_t m = getFact(f.first);
    if (m & 2) zero = zero || f.second > 0;
    uint8_t n = m & 5;
    if (n == 0) return 2;
    if (f.second & 1) {
      if (n == 5) both = true;
      else if (n == 1) s = -s;
    }
  }
  uint8_t res = zero ? 2 : 0;
  if (both) res |= 5;
  else res |= s > 0 ? 4 : 1;
  return res;
}
static uint8_t predMask(RPred p) {
  switch (p) {
    case R_GT: return 4;
    case R_GE: return 6;
    case R_EQ: return 2;
    default: return 5;
  }
}
static bool factsHold(const std::vector<mpq_class> &w) {
  for (size_t i = 0; i < varB.size(); ++i) {
    if (sgn(w[i]) <= 0) return false;
    if (varB[i].hasLo && w[i] < varB[i].lo) return false;
    if (varB[i].hasHi && w[i] > varB[i].hi) return false;
  }
  for (auto &f : facts) {
    int s = sgn(rf::evalPoly(rf::polys[f.first].p, w));
    if (!(f.second & (s < 0 ? 1 : s == 0 ? 2 : 4))) return false;
  }
  return true;
}
static Z3_ast ratTerm(const mpq_class &q) { return Z3_mk_numeral(Z, q.get_str().c_str(), realS); }
static Z3_ast polyZ3(uint32_t id) {
  auto it = polyTerm.find(id);
  if (it != polyTerm.end()) return it->second;
  std::vector<Z3_ast> ts;
  for (auto &t : rf::polys[id].p) {
    std::vector<Z3_ast> m;
    if (t.second != 1 || t.first.v.empty()) m.push_back(ratTerm(t.second));
    for (auto &x : t.first.v)
      for (unsigned k = 0; k < x.second; ++k) m.push_back(realTerm[x.first]);
    ts.push_back(m.size() == 1 ? m[0] : Z3_mk_mul(Z, m.size(), m.data()));
  }
  Z3_ast r = ts.size() == 1 ? ts[0] : Z3_mk_add(Z, ts.size(), ts.data());
  polyTerm[id] = r;
  return r;
}
static Z3_ast signZ3(Z3_ast t, uint8_t mask) {
  Z3_ast z = Z3_mk_real(Z, 0, 1);
  switch (mask) {
    case 1: return Z3_mk_lt(Z, t, z);
    case 2: return Z3_mk_eq(Z, t, z);
    case 3: return Z3_mk_le(Z, t, z);
    case 4: return Z3_mk_gt(Z, t, z);
    case 5: return Z3_mk_not(Z, Z3_mk_eq(Z, t, z));
    case 6: return Z3_mk_ge(Z, t, z);
    case 0: return tFalse;
    default: return tTrue;
  }
}
// products of the positive-exponent and negative-exponent factors
static void ratZ3(const RatFun &r, Z3_ast *num, Z3_ast *den) {
  std::vector<Z3_ast> n{ratTerm(r.coef)}, d;
  for (auto &f : r.f)
    for (int i = 0; i < std::abs(f.second); ++i) (f.second > 0 ? n : d).push_back(polyZ3(f.first));
  *num = n.size() == 1 ? n[0] : Z3_mk_mul(Z, n.size(), n.data());
  *den = d.empty() ? ratTerm(1) : d.size() == 1 ? d[0] : Z3_mk_mul(Z, d.size(), d.data());
}
static bool realModel(Z3_model m, std::vector<mpq_class> *out) {
  *out = witness;
  for (size_t i = 0; i < realTerm.size(); ++i) {
    Z3_ast v = nullptr;
    if (!Z3_model_eval(Z, m, realTerm[i], false, &v)) continue;
    if (Z3_is_eq_ast(Z, v, realTerm[i])) continue;  // not mentioned
    if (Z3_is_algebraic_number(Z, v)) v = Z3_get_algebraic_number_lower(Z, v, 60);
    if (Z3_get_ast_kind(Z, v) != Z3_NUMERAL_AST) return false;
    (*out)[i] = mpq_class(Z3_get_numeral_string(Z, v));
    (*out)[i].canonicalize();
  }
  return true;
}
// satisfiability of facts + extra; 1 sat (wit filled), 0 unsat, -1 unknown
static int nraCheck(const std::vector<Z3_ast> &extra, const std::vector<uint32_t> &vars, std::vector<mpq_class> *wit) {
  Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA"));
  Z3_solver_inc_ref(Z, s);
  setRlimit(s, rlimitAssert);
  for (size_t i = 0; i < realTerm.size(); ++i) {
    Z3_solver_assert(Z, s, Z3_mk_gt(Z, realTerm[i], Z3_mk_real(Z, 0, 1)));
    if (varB[i].hasLo) Z3_solver_assert(Z, s, Z3_mk_ge(Z, realTerm[i], ratTerm(varB[i].lo)));
    if (varB[i].hasHi) Z3_solver_assert(Z, s, Z3_mk_le(Z, realTerm[i], ratTerm(varB[i].hi)));
  }
  for (auto &f : facts) Z3_solver_assert(Z, s, signZ3(polyZ3(f.first), f.second));
  for (auto e : extra) Z3_solver_assert(Z, s, e);
  Z3_model m = nullptr;
  int r = check(s, &m);
  if (r == 1 && wit) {
    if (!realModel(m, wit)) r = -1;
  }
  if (m) Z3_model_dec_ref(Z, m);
  Z3_solver_dec_ref(Z, s);
  return r;
}
static bool randomWitness(int tries, uint32_t poly, uint8_t mask, std::vector<mpq_class> *out) {
  std::vector<uint32_t> pv;
  for (auto &t : rf::polys[poly].p)
    for (auto &x : t.first.v) pv.push_back(x.first);
  std::sort(pv.begin(), pv.end());
  pv.erase(std::unique(pv.begin(), pv.end()), pv.end());
  for (int t = 0; t < tries; ++t) {
    std::vector<mpq_class> w = witness;
    for (uint32_t v : pv) {
      if (pv.size() > 1 && rng() % 3 == 0) continue;
      if (varB[v].hasLo && varB[v].hasHi) {
        mpq_class f((unsigned long)(1 + rng() % 97), 98);
        f.canonicalize();
        w[v] = varB[v].lo + (varB[v].hi - varB[v].lo) * f;
      } else if (rng() % 2) {
        w[v] = mpq_class((unsigned long)(1 + rng() % 200), (unsigned long)(1 + rng() % 24));
        w[v].canonicalize();
      } else {
        static const double ex[] = {0.015625, 0.125, 0.5, 1, 2, 8, 64, 512};
        w[v] *= qd(ex[rng() % 8]);
      }
    }
    int s = sgn(rf::evalPoly(rf::polys[poly].p, w));
    if (!(mask & (s < 0 ? 1 : s == 0 ? 2 : 4))) continue;
    if (factsHold(w)) {
      *out = w;
      return true;
    }
  }
  return false;
}
static void addFact(uint32_t id, uint8_t mask) {
  if (fact.size() <= id) fact.resize(id + 64, 7);
  fact[id] &= mask;
  facts.push_back({id, fact[id]});
}
// restrict the sign of one polynomial to `want` or its complement; returns true if in `want`
static bool decidePoly(uint32_t id, uint8_t want) {
  uint8_t m = getFact(id);
  if (!(m & ~want)) return true;
  if (!(m & want)) return false;
  if (specDepth) throw SpecFail();
  __sync_fetch_and_add(&sh->symBranches, 1);
  int s = sgn(rf::evalPoly(rf::polys[id].p, witness));
  uint8_t sb = s < 0 ? 1 : s == 0 ? 2 : 4;
  bool side = (want & sb) != 0;
  uint8_t mine = side ? (m & want) : (m & ~want & 7);
  uint8_t other = m & ~mine & 7;
  // equality is measure zero: explored only when asked for
  int limit = other == 2 ? eqForkLimit : rcForkLimit;
  uint32_t site = siteHash() & 0xffff;
  bool explore = limit > 0 && (int)sh->siteCnt[site] < limit;
  if (!explore) {
    if (other == 2) __sync_fetch_and_add(&sh->cutCmp, 1);
    else __sync_fetch_and_add(&sh->cutBranches, 1);
  } else {
    std::vector<mpq_class> w;
    bool found = other != 2 && randomWitness(60, id, other, &w);
    int r = 1;
    if (!found) {
      r = nraCheck({signZ3(polyZ3(id), other)}, {}, &w);
      if (r == 1 && other != 2 && !(factsHold(w) && (other & (1 << (sgn(rf::evalPoly(rf::polys[id].p, w)) + 1))))) {
        // rational rounding of an algebraic model point
        r = 1;
      }
    }
    if (r == 1) {
      __sync_fetch_and_add(&sh->siteCnt[site], 1);
      if (doFork()) {
        witness = w;
        addFact(id, other);
        return !side;
      }
    } else if (r == 0) __sync_fetch_and_add(&sh->infeasible, 1);
    else __sync_fetch_and_add(&sh->cutBranches, 1);
  }
  addFact(id, mine);
  return side;
}
// forced value of a real condition or -1
static int rcQuick(const Expr *e) {
  uint8_t m = signMask(e->r), p = predMask(e->pred);
  if (!(m & ~p)) return 1;
  if (!(m & p)) return 0;
  return -1;
}
static bool decideRC(const Expr *e) {
  int q = rcQuick(e);
  if (q >= 0) return q;
  // settle the unknown factors one at a time
  std::vector<std::pair<uint32_t, int>> unk;
  for (auto &f : e->r.f) {
    uint8_t m = getFact(f.first);
    if (m == 4 || m == 1 || m == 2) continue;
    if (m == 5 && (f.second & 1) == 0) continue;
    unk.push_back({f.first, f.second});
  }
  for (size_t i = 0; i < unk.size(); ++i) {
    q = rcQuick(e);
    if (q >= 0) return q;
    uint32_t id = unk[i].first;
    uint8_t want;
    if (e->pred == R_EQ || e->pred == R_NE) want = 2;
    else if (unk.size() == 1 && (unk[i].second & 1)) {
      // sign of the rest is known: exact split on the predicate
      RatFun rest = e->r;
      rest.f.erase(id);
      uint8_t rm = signMask(rest);
      uint8_t p = predMask(e->pred);
      if (rm == 4) want = p;
      else if (rm == 1) want = (p & 2) | ((p & 4) ? 1 : 0) | ((p & 1) ? 4 : 0);
      else want = 4;
    } else want = 4;
    decidePoly(id, want);
    q = rcQuick(e);
    if (q >= 0) return q;
    if (want == 4) decidePoly(id, 2);
  }
  q = rcQuick(e);
  if (q >= 0) return q;
  pathError("undecided real comparison");
}
static RatFun realOf(Val v) {
  if (!v.e) {
    double d = D(v.v);
    if (std::isnan(d) || std::isinf(d)) pathError("infinite or NaN operand in real arithmetic");
    return rf::constant(qd(d));
  }
  if (v.e->k == E_REAL) return v.e->r;
  pathError("expected a real");
}
// rational approximation of exp(c), exact for c = log of small rationals is not needed
static RatFun expConst(double c) {
  if (c == 0) return rf::constant(1);
  if (std::isinf(c) && c < 0) return rf::constant(0);
  double e = std::exp(c);
  // snap to a small rational when the logarithm agrees to the last digits
  for (int den = 1; den <= 1000; ++den) {
    double n = std::round(e * den);
    if (n >= 1 && n <= 1e6 && std::log(n / den) == c) return rf::constant(mpq_class((unsigned long)n, (unsigned long)den));
  }
  return rf::constant(qd(e));
}
static bool logOf(Val v, RatFun *t, mpq_class *sc) {
  if (v.e) {
    if (v.e->k != E_SLOG) return false;
    *t = v.e->r;
    *sc = v.e->scale;
    return true;
  }
  double d = D(v.v);
  if (std::isnan(d) || (std::isinf(d) && d > 0)) return false;
  *t = expConst(d);
  *sc = 1;
  return true;
}
static bool isK(Val v, EK k) { return v.e && v.e->k == k; }
static Z3_ast fpAst(Val v) {
  if (!v.e) return Z3_mk_fpa_to_fp_bv(Z, Z3_mk_unsigned_int64(Z, v.v, bvs(64)), fpS);
  if (v.e->k == E_FP) return v.e->a;
  if (v.e->k == E_BV) return Z3_mk_fpa_to_fp_bv(Z, v.e->a, fpS);
  pathError("mixing IEEE and real-valued symbols");
}
Val fpBin(unsigned op, Val a, Val b) {
  if (isK(a, E_FP) || isK(b, E_FP) || isK(a, E_BV) || isK(b, E_BV)) {
    Z3_ast x = fpAst(a), y = fpAst(b), r;
    switch (op) {
      case Instruction::FAdd: r = Z3_mk_fpa_add(Z, rne, x, y); break;
      case Instruction::FSub: r = Z3_mk_fpa_sub(Z, rne, x, y); break;
      case Instruction::FMul: r = Z3_mk_fpa_mul(Z, rne, x, y); break;
      case Instruction::FDiv: r = Z3_mk_fpa_div(Z, rne, x, y); break;
      default: pathError("fp op");
    }
    return newExpr(E_FP, 64, Z3_simplify(Z, r));
  }
  a = hashConc(a), b = hashConc(b);
  bool la = isK(a, E_SLOG), lb = isK(b, E_SLOG);
  if (la || lb) {
    if (op == Instruction::FAdd || op == Instruction::FSub) {
      // identities with special values
      if (!a.e || !b.e) {
        double c = D(a.e ? b.v : a.v);
        if (std::isnan(c)) return CD(c);
        if (std::isinf(c)) {
          if (op == Instruction::FSub && !b.e) return CD(-c);
          return CD(c);
        }
        if (c == 0) {
          if (!b.e) return a;
          return op == Instruction::FAdd ? b : fpNeg(b);
        }
      }
      if (isK(a, E_REAL) || isK(b, E_REAL)) pathError("sum of a logarithm and a real");
      RatFun ta, tb;
      mpq_class sa, sb;
      if (!logOf(a, &ta, &sa) || !logOf(b, &tb, &sb)) pathError("log operand");
      if (!a.e && sb != 1) { sa = 1; }
      if (op == Instruction::FSub) tb = rf::inv(tb);
      if (sa == sb) return mkLog(rf::mul(ta, tb), sa);
      mpq_class q = sa / sb;
      if (q.get_den() == 1 && abs(q) <= 64) return mkLog(rf::mul(rf::pow(ta, (int)q.get_num().get_si()), tb), sb);
      q = sb / sa;
      if (q.get_den() == 1 && abs(q) <= 64) return mkLog(rf::mul(ta, rf::pow(tb, (int)q.get_num().get_si())), sa);
      // common denominator
      mpz_class l;
      mpz_lcm(l.get_mpz_t(), sa.get_den().get_mpz_t(), sb.get_den().get_mpz_t());
      mpq_class u = mpq_class(1) / mpq_class(l);
      mpq_class pa = sa / u, pb = sb / u;
      if (abs(pa) <= 64 && abs(pb) <= 64)
        return mkLog(rf::mul(rf::pow(ta, (int)pa.get_num().get_si()), rf::pow(tb, (int)pb.get_num().get_si())), u);
      pathError("sum of logarithms with unrelated scales");
    }
    if (op == Instruction::FMul || op == Instruction::FDiv) {
      if (la && !b.e) {
        double c = D(b.v);
        if (std::isinf(c) || std::isnan(c) || (c == 0 && op == Instruction::FDiv)) pathError("scaling a logarithm by a special value");
        mpq_class q = qd(c);
        return mkLog(a.e->r, op == Instruction::FMul ? mpq_class(a.e->scale * q) : mpq_class(a.e->scale / q));
      }
      if (lb && !a.e && op == Instruction::FMul) return mkLog(b.e->r, b.e->scale * qd(D(a.v)));
      if (la && isK(b, E_REAL) && b.e->r.isConst())
        return mkLog(a.e->r, op == Instruction::FMul ? mpq_class(a.e->scale * b.e->r.coef) : mpq_class(a.e->scale / b.e->r.coef));
      if (lb && isK(a, E_REAL) && a.e->r.isConst() && op == Instruction::FMul) return mkLog(b.e->r, b.e->scale * a.e->r.coef);
      if (la && lb && op == Instruction::FDiv && a.e->r == b.e->r) return mkReal(rf::constant(a.e->scale / b.e->scale));
      pathError("product of logarithms");
    }
    pathError("operation on a logarithm");
  }
  // plain reals
  if (!a.e || !b.e) {
    double c = D(a.e ? b.v : a.v);
    if (std::isnan(c)) return CD(c);
    if (std::isinf(c)) {
      if (op == Instruction::FAdd) return CD(c);
      if (op == Instruction::FSub) return CD(b.e ? c : -c);
      pathError("infinite factor");
    }
    if (c == 0) {
      if (op == Instruction::FMul) return CD(0);
      if (op == Instruction::FDiv && b.e) return CD(0);
    }
  }
  RatFun x = realOf(a), y = realOf(b);
  switch (op) {
    case Instruction::FAdd: return mkReal(rf::add(x, y));
    case Instruction::FSub: return mkReal(rf::sub(x, y));
    case Instruction::FMul: return mkReal(rf::mul(x, y));
    case Instruction::FDiv:
      if (y.isZero()) {
        uint8_t m = signMask(x);
        if (m == 4) return CD(INFINITY);
        pathError("division by zero real");
      }
      return mkReal(rf::div(x, y));
    default: pathError("fp op on reals");
  }
}
Val fpNeg(Val a) {
  if (isK(a, E_FP) || isK(a, E_BV)) return newExpr(E_FP, 64, Z3_simplify(Z, Z3_mk_fpa_neg(Z, fpAst(a))));
  if (isK(a, E_SLOG)) return mkLog(a.e->r, -a.e->scale);
  if (isK(a, E_REAL)) return mkReal(rf::neg(a.e->r));
  pathError("fneg");
}
// sign expression of a-b
static bool diffSign(Val a, Val b, RatFun *out, int *inf) {
  *inf = 0;
  bool la = isK(a, E_SLOG), lb = isK(b, E_SLOG);
  for (int i = 0; i < 2; ++i) {
    Val x = i ? b : a;
    if (!x.e && std::isinf(D(x.v))) {
      int s = D(x.v) > 0 ? 1 : -1;
      *inf = i ? -s : s;
      return true;
    }
  }
  if (la || lb) {
    RatFun ta, tb;
    mpq_class sa, sb;
    if (!logOf(a, &ta, &sa) || !logOf(b, &tb, &sb)) pathError("comparison of a logarithm with a real");
    if (!la) {  // constant c against s*log t
      double c = D(a.v);
      ta = c == 0 ? rf::constant(1) : expConst(c / sb.get_d()); sa = sb;
    }
    if (!lb) {
      double c = D(b.v);
      tb = c == 0 ? rf::constant(1) : expConst(c / sa.get_d()); sb = sa;
    }
    if (sa != sb) {
      if (sgn(sa) < 0) sa = -sa, ta = rf::inv(ta);
      if (sgn(sb) < 0) sb = -sb, tb = rf::inv(tb);
      mpq_class q = sa / sb;
      long n = q.get_num().get_si(), d = q.get_den().get_si();
      if (n > 64 || d > 64) pathError("comparison of logarithms with unrelated scales");
      ta = rf::pow(ta, n);
      tb = rf::pow(tb, d);
      sa = sb = 1;
    }
    RatFun r = rf::sub(ta, tb);
    *out = sgn(sa) > 0 ? r : rf::neg(r);
    return true;
  }
  *out = rf::sub(realOf(a), realOf(b));
  return true;
}
Val fpCmp(unsigned pred, Val a, Val b) {
  if (isK(a, E_FP) || isK(b, E_FP) || isK(a, E_BV) || isK(b, E_BV)) {
    Z3_ast x = fpAst(a), y = fpAst(b), r;
    Z3_ast un[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)};
    Z3_ast uno = Z3_mk_or(Z, 2, un);
    bool uns = pred >= CmpInst::FCMP_UNO && pred != CmpInst::FCMP_TRUE;
    switch (pred) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Z3_mk_fpa_eq(Z, x, y); break;
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Z3_mk_fpa_gt(Z, x, y); break;
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Z3_mk_fpa_geq(Z, x, y); break;
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Z3_mk_fpa_lt(Z, x, y); break;
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = Z3_mk_fpa_leq(Z, x, y); break;
      case CmpInst::FCMP_ONE: {
        Z3_ast c[2] = {Z3_mk_not(Z, uno), Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y))};
        r = Z3_mk_and(Z, 2, c);
        break;
      }
      case CmpInst::FCMP_UNE: r = Z3_mk_not(Z, Z3_mk_fpa_eq(Z, x, y)); uns = false; break;
      case CmpInst::FCMP_ORD: r = Z3_mk_not(Z, uno); break;
      case CmpInst::FCMP_UNO: r = uno; break;
      default: pathError("fcmp");
    }
    if (uns && pred != CmpInst::FCMP_UNO) {
      Z3_ast o[2] = {uno, r};
      r = Z3_mk_or(Z, 2, o);
    }
    return bvVal(r, 1);
  }
  a = hashConc(a), b = hashConc(b);
  if ((!a.e && std::isnan(D(a.v))) || (!b.e && std::isnan(D(b.v)))) return C(pred >= CmpInst::FCMP_UNO);
  if (pred == CmpInst::FCMP_ORD) return C(1);
  if (pred == CmpInst::FCMP_UNO) return C(0);
  RatFun r;
  int inf;
  diffSign(a, b, &r, &inf);
  if (inf) {
    switch (pred & 7) {
      case CmpInst::FCMP_OEQ: return C(0);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_OGE: return C(inf > 0);
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE: return C(inf < 0);
      default: return C(1);
    }
  }
  switch (pred & 7) {
    case CmpInst::FCMP_OEQ: return mkRC(R_EQ, r);
    case CmpInst::FCMP_OGT: return mkRC(R_GT, r);
    case CmpInst::FCMP_OGE: return mkRC(R_GE, r);
    case CmpInst::FCMP_OLT: return mkRC(R_GT, rf::neg(r));
    case CmpInst::FCMP_OLE: return mkRC(R_GE, rf::neg(r));
    case CmpInst::FCMP_ONE: return mkRC(R_NE, r);
  }
  pathError("fcmp real");
}
Val fpCast(unsigned op, Val a, unsigned from, unsigned to) {
  if (isK(a, E_RC)) a = C(decide(a));
  if (op == Instruction::FPExt || op == Instruction::FPTrunc) {
    // between double and x87 long double: exact arithmetic does not care
    if (to >= 64 && from >= 64) return a;
    pathError("float precision cast of a symbol");
  }
  if (op == Instruction::FPToUI || op == Instruction::FPToSI) {
    if (isK(a, E_FP)) {
      Z3_ast x = a.e->a;
      Z3_ast two63 = fpAst(CD(9223372036854775808.0));
      Z3_ast mtwo63 = fpAst(CD(-9223372036854775808.0));
      Z3_ast ind = Z3_mk_unsigned_int64(Z, 1ull << 63, bvs(64));
      Z3_ast inr[2] = {Z3_mk_fpa_lt(Z, x, two63), Z3_mk_fpa_geq(Z, x, mtwo63)};
      // x86-64: cvttsd2si, out of range gives 2^63; unsigned adds the 2^63 offset path
      Z3_ast sg = Z3_mk_ite(Z, Z3_mk_and(Z, 2, inr), Z3_mk_fpa_to_sbv(Z, rtz, x, 64), ind);
      Z3_ast r = sg;
      if (op == Instruction::FPToUI) {
        Z3_ast y = Z3_mk_fpa_sub(Z, rne, x, two63);
        Z3_ast inr2[2] = {Z3_mk_fpa_lt(Z, y, two63), Z3_mk_fpa_geq(Z, y, mtwo63)};
        Z3_ast sy = Z3_mk_ite(Z, Z3_mk_and(Z, 2, inr2), Z3_mk_fpa_to_sbv(Z, rtz, y, 64), ind);
        r = Z3_mk_ite(Z, Z3_mk_fpa_geq(Z, x, two63), Z3_mk_bvxor(Z, sy, ind), sg);
      }
      if (to < 64) r = Z3_mk_extract(Z, to - 1, 0, r);
      return bvVal(r, to);
    }
    if (isK(a, E_SLOG)) {
      Expr *e = new Expr(*a.e);
      e->k = E_HASH;
      e->tag = 0;
      return Val{0, e};
    }
    if (isK(a, E_REAL)) return C((uint64_t)(int64_t)concretizeD(a));
    pathError("fptoint");
  }
  if (op == Instruction::UIToFP || op == Instruction::SIToFP) {
    if (isK(a, E_HASH)) pathError("hash to double");
    if (fpMode) {
      Z3_ast x = bvAst(a, from);
      return newExpr(E_FP, 64, Z3_simplify(Z, op == Instruction::UIToFP ? Z3_mk_fpa_to_fp_unsigned(Z, rne, x, fpS) : Z3_mk_fpa_to_fp_signed(Z, rne, x, fpS)));
    }
    uint64_t v = concretize(a, from);
    if (op == Instruction::SIToFP) return CD((double)((int64_t)(v << (64 - from)) >> (64 - from)));
    return CD((double)v);
  }
  if (op == Instruction::BitCast && from == 64 && to == 64) {
    if (isK(a, E_BV)) return newExpr(E_FP, 64, Z3_simplify(Z, Z3_mk_fpa_to_fp_bv(Z, bvAst(a, 64), fpS)));
    if (isK(a, E_FP)) return bvVal(Z3_mk_fpa_to_ieee_bv(Z, a.e->a), 64);
    return a;
  }
  pathError("fpCast");
}
// ------------------------------------------------------------------ libm
static Z3_func_decl ufExp, ufLog, ufLog1p;
static void ufInit() {
  if (ufExp) return;
  ufExp = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, "exp"), 1, &fpS, fpS);
  ufLog = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, "log"), 1, &fpS, fpS);
  ufLog1p = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, "log1p"), 1, &fpS, fpS);
}
static void assertPath(Z3_ast c) { Z3_solver_assert(Z, S, c); }
static Z3_ast imp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(Z, a, b); }
static Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(Z, 2, x); }
static void refreshModel();
static Val ufMath(const std::string &fn, Val a) {
  ufInit();
  Z3_ast x = fpAst(a);
  auto fp = [&](double d) { return fpAst(CD(d)); };
  Z3_ast nan = Z3_mk_fpa_is_nan(Z, x);
  if (fn == "exp") {
    Z3_ast r = Z3_mk_app(Z, ufExp, 1, &x);
    // contract of exp: range facts only
    assertPath(imp(nan, Z3_mk_fpa_is_nan(Z, r)));
    assertPath(imp(Z3_mk_not(Z, nan), and2(Z3_mk_not(Z, Z3_mk_fpa_is_nan(Z, r)), Z3_mk_fpa_geq(Z, r, fp(0)))));
    assertPath(imp(Z3_mk_fpa_leq(Z, x, fp(0)), Z3_mk_fpa_leq(Z, r, fp(1))));
    assertPath(imp(Z3_mk_fpa_geq(Z, x, fp(0)), Z3_mk_fpa_geq(Z, r, fp(1))));
    assertPath(imp(Z3_mk_fpa_gt(Z, x, fp(709.79)), Z3_mk_eq(Z, r, fp(INFINITY))));
    assertPath(imp(Z3_mk_fpa_lt(Z, x, fp(709.78)), Z3_mk_fpa_lt(Z, r, fp(INFINITY))));
    assertPath(imp(Z3_mk_fpa_lt(Z, x, fp(-745.2)), Z3_mk_fpa_eq(Z, r, fp(0))));
    refreshModel();
    return newExpr(E_FP, 64, r);
  }
  if (fn == "log1p") {
    Z3_ast r = Z3_mk_app(Z, ufLog1p, 1, &x);
    assertPath(imp(nan, Z3_mk_fpa_is_nan(Z, r)));
    assertPath(imp(Z3_mk_fpa_geq(Z, x, fp(0)), and2(Z3_mk_fpa_geq(Z, r, fp(0)), Z3_mk_fpa_leq(Z, r, x))));
    assertPath(imp(and2(Z3_mk_fpa_geq(Z, x, fp(0)), Z3_mk_fpa_leq(Z, x, fp(1))), Z3_mk_fpa_leq(Z, r, fp(0.693148))));
    assertPath(imp(Z3_mk_fpa_eq(Z, x, fp(1)), Z3_mk_fpa_geq(Z, r, fp(0.693147))));
    assertPath(imp(Z3_mk_fpa_eq(Z, x, fp(INFINITY)), Z3_mk_eq(Z, r, fp(INFINITY))));
    assertPath(imp(Z3_mk_fpa_lt(Z, x, fp(-1)), Z3_mk_fpa_is_nan(Z, r)));
    refreshModel();
    return newExpr(E_FP, 64, r);
  }
  if (fn == "log") {
    Z3_ast r = Z3_mk_app(Z, ufLog, 1, &x);
    assertPath(imp(nan, Z3_mk_fpa_is_nan(Z, r)));
    assertPath(imp(Z3_mk_fpa_lt(Z, x, fp(0)), Z3_mk_fpa_is_nan(Z, r)));
    assertPath(imp(Z3_mk_fpa_eq(Z, x, fp(0)), Z3_mk_eq(Z, r, fp(-INFINITY))));
    assertPath(imp(Z3_mk_fpa_eq(Z, x, fp(1)), Z3_mk_fpa_eq(Z, r, fp(0))));
    assertPath(imp(and2(Z3_mk_fpa_gt(Z, x, fp(0)), Z3_mk_fpa_leq(Z, x, fp(1))),
                   and2(Z3_mk_fpa_leq(Z, r, fp(0)), Z3_mk_fpa_geq(Z, r, fp(-745.2)))));
    assertPath(imp(Z3_mk_fpa_geq(Z, x, fp(1)), Z3_mk_fpa_geq(Z, r, fp(0))));
    assertPath(imp(and2(Z3_mk_fpa_geq(Z, x, fp(1)), Z3_mk_fpa_lt(Z, x, fp(INFINITY))), Z3_mk_fpa_leq(Z, r, fp(709.79))));
    assertPath(imp(Z3_mk_eq(Z, x, fp(INFINITY)), Z3_mk_eq(Z, r, fp(INFINITY))));
    refreshModel();
    return newExpr(E_FP, 64, r);
  }
  pathError("libm on an IEEE symbol: " + fn);
}
bool symMath(const std::string &fn, const Val *args, int n, Val *ret) {
  Val a = args[0];
  bool sym = false;
  for (int i = 0; i < n; ++i) sym = sym || args[i].e;
  if (!sym) {
    if (!realMode || n != 1) return false;
    double d = D(a.v);
    if (fn == "log" && d > 0 && d != 1 && !std::isinf(d)) {
      *ret = mkLog(rf::constant(qd(d)));
      return true;
    }
    return false;
  }
  if (isK(a, E_FP) || (n > 1 && isK(args[1], E_FP)) || isK(a, E_BV)) {
    if (fn == "fabs") { *ret = newExpr(E_FP, 64, Z3_simplify(Z, Z3_mk_fpa_abs(Z, fpAst(a)))); return true; }
    if (fn == "fmax" || fn == "fmin") {
      Z3_ast x = fpAst(a), y = fpAst(args[1]);
      *ret = newExpr(E_FP, 64, fn == "fmax" ? Z3_mk_fpa_max(Z, x, y) : Z3_mk_fpa_min(Z, x, y));
      return true;
    }
    if (n == 1) {
      *ret = ufMath(fn, a);
      return true;
    }
    pathError("libm on an IEEE symbol: " + fn);
  }
  if (fn == "fmax" || fn == "fmin") {
    bool gt = decide(fpCmp(CmpInst::FCMP_OGT, args[0], args[1]));
    *ret = (fn == "fmax") == gt ? args[0] : args[1];
    return true;
  }
  if (fn == "pow" && n == 2 && !args[1].e) {
    double e = D(args[1].v);
    if (e == std::floor(e) && std::abs(e) <= 64 && isK(a, E_REAL)) { *ret = mkReal(rf::pow(a.e->r, (int)e)); return true; }
    pathError("pow");
  }
  if (n != 1) pathError("libm: " + fn);
  if (fn == "exp") {
    if (!isK(a, E_SLOG)) pathError("exp of a non-logarithm");
    if (a.e->scale != 1) pathError("exp of a scaled logarithm");
    *ret = mkReal(a.e->r);
    return true;
  }
  if (fn == "expm1") {
    if (!isK(a, E_SLOG) || a.e->scale != 1) pathError("expm1 of a non-logarithm");
    *ret = mkReal(rf::sub(a.e->r, rf::constant(1)));
    return true;
  }
  if (fn == "log" || fn == "log1p" || fn == "log2" || fn == "log10") {
    RatFun r = realOf(a);
    if (fn == "log1p") r = rf::add(r, rf::constant(1));
    uint8_t m = signMask(r);
    if (m != 4) {
      if (!decide(mkRC(R_GT, r))) {
        if (decide(mkRC(R_EQ, r))) *ret = CD(-INFINITY);
        else *ret = CD(NAN);
        return true;
      }
    }
    if (fn == "log2" || fn == "log10") *ret = mkLog(r, mpq_class(qd(fn == "log2" ? 1 / std::log(2.0) : 1 / std::log(10.0))));
    else *ret = mkLog(r);
    return true;
  }
  if (fn == "fabs") {
    if (isK(a, E_SLOG)) {
      bool pos = decide(fpCmp(CmpInst::FCMP_OGE, a, CD(0)));
      *ret = pos ? a : fpNeg(a);
      return true;
    }
    uint8_t m = signMask(a.e->r);
    if (m == 4 || m == 6) { *ret = a; return true; }
    *ret = decide(mkRC(R_GE, a.e->r)) ? a : fpNeg(a);
    return true;
  }
  if (fn == "isnan" || fn == "isinf") { *ret = C(0); return true; }
  if (fn == "isfinite") { *ret = C(1); return true; }
  pathError("libm on a symbol: " + fn);
}
// ------------------------------------------------------------------ path decisions
static void refreshModel() {
  if (M) Z3_model_dec_ref(Z, M);
  M = nullptr;
}
static bool needModel() {
  if (M) return true;
  int r = check(S, &M);
  if (r == 1) return true;
  if (r == 0) finishPath("infeasible");
  __sync_fetch_and_add(&sh->cutBranches, 1);
  finishPath("cut");
}
static bool evalBool(Z3_ast c) {
  Z3_ast v = nullptr;
  Z3_model_eval(Z, M, c, true, &v);
  Z3_lbool b = Z3_get_bool_value(Z, v);
  if (b == Z3_L_UNDEF) {
    v = Z3_simplify(Z, v);
    b = Z3_get_bool_value(Z, v);
  }
  if (b == Z3_L_UNDEF) pathError("model evaluation");
  return b == Z3_L_TRUE;
}
// conditions already settled on this path (terms are hash-consed, constraints only grow)
static std::unordered_map<Z3_ast, bool> settled;
static bool decideBV1(Z3_ast c);
static bool decideBV(Z3_ast c) {
  bool neg = false;
  while (Z3_get_ast_kind(Z, c) == Z3_APP_AST) {
    Z3_app a = Z3_to_app(Z, c);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, a)) != Z3_OP_NOT) break;
    c = Z3_get_app_arg(Z, a, 0);
    neg = !neg;
  }
  auto it = settled.find(c);
  if (it != settled.end()) return it->second != neg;
  bool r = decideBV1(c);
  settled[c] = r;
  return r != neg;
}
static bool decideBV1(Z3_ast c) {
  if (specDepth) throw SpecFail();
  __sync_fetch_and_add(&sh->symBranches, 1);
  needModel();
  bool side = evalBool(c);
  Z3_ast other = side ? Z3_mk_not(Z, c) : c;
  Z3_solver_push(Z, S);
  Z3_solver_assert(Z, S, other);
  Z3_model m2 = nullptr;
  int r = check(S, &m2);
  if (r == 1) {
    Z3_solver_pop(Z, S, 1);
    if (doFork()) {
      Z3_solver_assert(Z, S, other);
      Z3_model_dec_ref(Z, M);
      M = m2;
      return !side;
    }
    Z3_model_dec_ref(Z, m2);
    Z3_solver_assert(Z, S, side ? c : Z3_mk_not(Z, c));
  } else {
    Z3_solver_pop(Z, S, 1);
    if (r == 0) __sync_fetch_and_add(&sh->infeasible, 1);
    else {
      __sync_fetch_and_add(&sh->cutBranches, 1);
      Z3_solver_assert(Z, S, side ? c : Z3_mk_not(Z, c));
    }
  }
  return side;
}
bool mayBranch(Val c, int *forced) {
  if (!c.e) { *forced = c.v & 1; return false; }
  if (c.e->k == E_RC) {
    int q = rcQuick(c.e);
    if (q >= 0) { *forced = q; return false; }
  }
  return true;
}
bool decide(Val c) {
  if (!c.e) return c.v & 1;
  if (c.e->k == E_RC) return decideRC(c.e);
  return decideBV(boolAst(c));
}
uint64_t concretize(Val v, unsigned w) {
  if (!v.e) return v.v;
  if (w == 1) return decide(v);
  if (v.e->k == E_HASH) return pseudoHash(v.e);
  if (v.e->k == E_FP) v = newExpr(E_BV, 64, Z3_mk_fpa_to_ieee_bv(Z, v.e->a));
  if (v.e->k != E_BV) pathError("concretising a real-valued symbol");
  if (specDepth) throw SpecFail();
  for (;;) {
    needModel();
    Z3_ast x = nullptr;
    Z3_model_eval(Z, M, v.e->a, true, &x);
    uint64_t n;
    if (!numeral(x, &n)) pathError("concretize");
    Val eq = bvCmp(CmpInst::ICMP_EQ, v, C(n), w);
    if (decide(eq)) return n;
  }
}
double concretizeD(Val v) {
  if (!v.e) return D(v.v);
  if (v.e->k == E_REAL) return rf::eval(v.e->r, witness).get_d();
  if (v.e->k == E_SLOG) {
    std::vector<double> w;
    for (auto &q : witness) w.push_back(q.get_d());
    return v.e->scale.get_d() * std::log(rf::evalD(v.e->r, w));
  }
  if (v.e->k == E_FP) return D(concretize(v, 64));
  pathError("concretizeD");
}
// ------------------------------------------------------------------ assume / assert
void vpAssume(Val c) {
  if (!c.e) {
    if (!(c.v & 1)) finishPath("assume");
    return;
  }
  if (c.e->k == E_RC) {
    // constrain without exploring the other side
    const Expr *e = c.e;
    int q = rcQuick(e);
    if (q == 1) return;
    if (q == 0) finishPath("assume");
    std::vector<uint32_t> unk;
    for (auto &f : e->r.f)
      if (getFact(f.first) != 4 && getFact(f.first) != 1) unk.push_back(f.first);
    if (unk.size() == 1) {
      RatFun rest = e->r;
      int ex = rest.f[unk[0]];
      rest.f.erase(unk[0]);
      uint8_t rm = signMask(rest), p = predMask(e->pred), want;
      if (!(ex & 1)) want = 7;
      else if (rm == 4) want = p;
      else want = (p & 2) | ((p & 4) ? 1 : 0) | ((p & 1) ? 4 : 0);
      if (want != 7) {
        int s = sgn(rf::evalPoly(rf::polys[unk[0]].p, witness));
        if (!(want & (s < 0 ? 1 : s == 0 ? 2 : 4))) {
          std::vector<mpq_class> w;
          if (randomWitness(want == 2 ? 0 : 200, unk[0], want, &w)) witness = w;
          else {
            int r = nraCheck({signZ3(polyZ3(unk[0]), want)}, {}, &w);
            if (r != 1) finishPath(r == 0 ? "assume" : "cut");
            witness = w;
          }
        }
        addFact(unk[0], want);
        return;
      }
    }
    if (!decideRC(e)) finishPath("assume");
    return;
  }
  Z3_ast a = boolAst(c);
  Z3_solver_assert(Z, S, a);
  if (M && evalBool(a)) return;
  refreshModel();
  needModel();
}
static bool bvModelFor(Z3_ast c, Z3_model *m) {  // S and c
  Z3_solver_push(Z, S);
  Z3_solver_assert(Z, S, c);
  setRlimit(S, rlimitAssert);
  int r = check(S, m);
  setRlimit(S, rlimitBranch);
  Z3_solver_pop(Z, S, 1);
  if (r < 0) {
    __sync_fetch_and_add(&sh->cutBranches, 1);
    snprintf(sh->errMsg, sizeof sh->errMsg, "solver answered unknown on an assertion");
  }
  return r == 1;
}
static Z3_model currentModel() {
  needModel();
  return M;
}
void vpAssert(Val c, const std::string &label) {
  __sync_fetch_and_add(&sh->asserts, 1);
  if (!c.e) {
    if (!(c.v & 1)) violation("assert", label);
    return;
  }
  __sync_fetch_and_add(&sh->assertsSolver, 1);
  if (c.e->k == E_RC) {
    const Expr *e = c.e;
    int q = rcQuick(e);
    if (q == 0) violation("assert", label);
    // witness first: a concrete point of the path condition
    int s = sgn(rf::eval(e->r, witness));
    if (!(predMask(e->pred) & (s < 0 ? 1 : s == 0 ? 2 : 4))) violation("assert", label);
    Z3_ast n, d;
    ratZ3(e->r, &n, &d);
    Z3_ast prod[2] = {n, d};
    std::vector<mpq_class> w;
    int r = nraCheck({signZ3(Z3_mk_mul(Z, 2, prod), 7 & ~predMask(e->pred))}, {}, &w);
    if (r == 1) violationModel("assert", label, currentModel(), &w);
    if (r < 0 && q != 1) snprintf(sh->errMsg, sizeof sh->errMsg, "solver answered unknown on assertion %s", label.c_str());
    if (r < 0 && q == 1) __sync_fetch_and_add(&sh->algebraic, 1);
    return;
  }
  Z3_model m = nullptr;
  if (bvModelFor(Z3_mk_not(Z, boolAst(c)), &m)) violationModel("assert", label, m, nullptr);
}
static void logPair(Val a, RatFun *t, mpq_class *sc, bool *bad) {
  *bad = !logOf(a, t, sc);
}
void vpAssertLog(int rel, Val a, Val b, double tol, const std::string &label) {
  __sync_fetch_and_add(&sh->asserts, 1);
  if (!a.e && !b.e) {
    double x = D(a.v), y = D(b.v);
    bool ok;
    if (std::isnan(x) || std::isnan(y)) ok = false;
    else if (rel == 1) ok = x <= y + 1e-9;
    else if (std::isinf(x) || std::isinf(y)) ok = x == y;
    else ok = std::abs(x - y) <= std::max(tol, 1e-9);
    if (!ok) violation("assert", label);
    return;
  }
  __sync_fetch_and_add(&sh->assertsSolver, 1);
  RatFun ta, tb;
  mpq_class sa, sb;
  bool b1, b2;
  logPair(a, &ta, &sa, &b1);
  logPair(b, &tb, &sb, &b2);
  if (b1 || b2) {
    if ((a.e && a.e->k == E_REAL) || (b.e && b.e->k == E_REAL)) {
      // plain reals
      RatFun d = rf::sub(realOf(a), realOf(b));
      Val c = rel == 1 ? mkRC(R_GE, rf::neg(d)) : mkRC(R_EQ, d);
      if (!c.e) { if (!(c.v & 1)) violation("assert", label); return; }
      __sync_fetch_and_sub(&sh->asserts, 1);
      __sync_fetch_and_sub(&sh->assertsSolver, 1);
      vpAssert(c, label);
      return;
    }
    violation("assert", label);
  }
  if (ta.isZero() || tb.isZero()) {
    if (ta.isZero() && tb.isZero()) return;
    if (rel == 1 && ta.isZero()) return;
    violation("assert", label);
  }
  if (sa != sb) {
    if (!a.e) sa = sb, ta = expConst(D(a.v) / sb.get_d());
    else if (!b.e) sb = sa, tb = expConst(D(b.v) / sa.get_d());
    else {
      if (sgn(sa) < 0) sa = -sa, ta = rf::inv(ta);
      if (sgn(sb) < 0) sb = -sb, tb = rf::inv(tb);
      mpq_class q = sa / sb;
      ta = rf::pow(ta, q.get_num().get_si());
      tb = rf::pow(tb, q.get_den().get_si());
    }
  } else if (sgn(sa) < 0) ta = rf::inv(ta), tb = rf::inv(tb);
  std::vector<double> wd;
  auto fail = [&](const std::vector<mpq_class> &w) {
    std::vector<double> x;
    for (auto &q : w) x.push_back(q.get_d());
    double u = std::log(rf::evalD(ta, x)) - std::log(rf::evalD(tb, x));
    if (std::isnan(u)) return 0.0;
    if (rel == 1) return u;
    return std::abs(u);
  };
  double lim = rel == 2 ? tol : 0;
  auto reportBest = [&](std::vector<mpq_class> best) {
    double bv = fail(best);
    for (int t = 0; t < 300; ++t) {
      std::vector<mpq_class> w = best;
      for (size_t i = 0; i < w.size(); ++i)
        if (!(varB[i].hasLo && varB[i].hasHi) && rng() % 2) {
          w[i] = mpq_class((unsigned long)(1 + rng() % 60), (unsigned long)(1 + rng() % 6));
          w[i].canonicalize();
        }
      double v = fail(w);
      if (v > bv * 1.2 && factsHold(w)) best = w, bv = v;
    }
    // a relative printing format rounds most where logarithms are large: look for tiny weights
    for (int t = 0; relPrinted && t < 100; ++t) {
      std::vector<mpq_class> w = best;
      for (size_t i = 0; i < w.size(); ++i)
        if (!(varB[i].hasLo && varB[i].hasHi) && rng() % 3 == 0) w[i] = mpq_class((unsigned long)(1 + rng() % 1000), 1000ul) / mpq_class(mpz_class(1) << (100 + rng() % 700));
      if (fail(w) > lim && factsHold(w)) {
        best = w;
        break;
      }
    }
    violationModel("assert", label, currentModel(), &best);
  };
  RatFun diff = rf::sub(ta, tb);
  if (rel == 0 && diff.isZero()) {
    // still put the question to the solver (it normalises both sides)
    Z3_ast n1, d1, n2, d2;
    ratZ3(ta, &n1, &d1);
    ratZ3(tb, &n2, &d2);
    Z3_ast l[2] = {n1, d2}, r[2] = {n2, d1};
    int q = nraCheck({Z3_mk_not(Z, Z3_mk_eq(Z, Z3_mk_mul(Z, 2, l), Z3_mk_mul(Z, 2, r)))}, {}, nullptr);
    if (q < 0) __sync_fetch_and_add(&sh->algebraic, 1);
    if (q == 1) pathError("solver contradicts the algebra");
    return;
  }
  if (rel != 2 && rf::div(ta, tb).isConst()) {
    // a constant ratio: constants computed in floating point carry its rounding
    __sync_fetch_and_sub(&sh->assertsSolver, 1);
    if (fail(witness) > 1e-9) reportBest(witness);
    return;
  }
  double f = fail(witness);
  if (f > lim + 1e-9 && (rel != 2 || f > tol * 1.0001)) reportBest(witness);
  std::vector<mpq_class> w;
  if (rel == 0 || rel == 1) {
    Z3_ast n, d;
    ratZ3(diff, &n, &d);
    Z3_ast prod[2] = {n, d};
    int q = nraCheck({signZ3(Z3_mk_mul(Z, 2, prod), rel == 0 ? 5 : 4)}, {}, &w);
    if (q == 1) reportBest(w);
    if (q < 0) {
      if (rel == 1 && !(signMask(diff) & 4)) __sync_fetch_and_add(&sh->algebraic, 1);
      else snprintf(sh->errMsg, sizeof sh->errMsg, "solver answered unknown on assertion %s", label.c_str());
    }
    return;
  }
  RatFun q = rf::div(ta, tb);
  mpq_class hi = qd(std::exp(tol) * (1 + 1e-9)), lo = qd(std::exp(-tol) * (1 - 1e-9));
  Z3_ast n, d;
  ratZ3(q, &n, &d);
  Z3_ast up[2] = {ratTerm(hi), d}, dn[2] = {ratTerm(lo), d};
  Z3_ast viol[2] = {Z3_mk_gt(Z, n, Z3_mk_mul(Z, 2, up)), Z3_mk_lt(Z, n, Z3_mk_mul(Z, 2, dn))};
  int r = nraCheck({Z3_mk_or(Z, 2, viol)}, {}, &w);
  if (r == 1) reportBest(w);
  if (r < 0) snprintf(sh->errMsg, sizeof sh->errMsg, "solver answered unknown on assertion %s", label.c_str());
}
// ------------------------------------------------------------------ printable stand-ins
struct Magic { Val v; double tol; Val back; bool read; };
static std::vector<Magic> magics;
static std::map<std::string, int> magicKey;
bool relPrinted = false;
Val magicFor(Val v, double tol, double *out) {
  magicOn = true;
  int id = magics.size();
  if (id >= 9999) pathError("too many printed symbols");
  magics.push_back({v, tol, Val{0, nullptr}, false});
  *out = -(980000.0 + id) * 1e9;
  return CD(*out);
}
bool magicLookup(uint64_t bits, Val *out) {
  double d = D(bits);
  if (!(d <= -9.8e14 && d > -9.9e14)) return false;
  double k = d / -1e9 - 980000.0;
  if (k != std::floor(k) || k >= magics.size()) return false;
  Magic &m = magics[(int)k];
  if (!m.read) {
    m.read = true;
    if (m.tol == 0) m.back = m.v;
    else {
      // the text was rounded: the value read is the printed one up to tol
      Val dv = freshRealVar(1);
      VarId x = witness.size() - 1;
      witness[x] = 1;
      varB[x].hasLo = varB[x].hasHi = true;
      varB[x].lo = qd(std::exp(-m.tol) * (1 - 1e-12));
      varB[x].hi = qd(std::exp(m.tol) * (1 + 1e-12));
      if (m.v.e->k == E_SLOG && m.v.e->scale == 1) m.back = mkLog(rf::mul(m.v.e->r, dv.e->r));
      else if (m.v.e->k == E_REAL) m.back = mkReal(rf::mul(m.v.e->r, dv.e->r));
      else pathError("printed a scaled logarithm");
    }
  }
  *out = m.back;
  return true;
}
// integers: a symbolic number is written as a stand-in between 1587600000 and 1587610000
static std::vector<Val> intMagics;
uint64_t intMagicFor(Val v) {
  intMagicOn = true;
  if (intMagics.size() >= 9999) pathError("too many printed symbols");
  intMagics.push_back(v);
  return INT_MAGIC + intMagics.size() - 1;
}
bool intMagicLookup(uint64_t v, unsigned w, Val *out) {
  int64_t x = w == 32 ? (int64_t)(int32_t)v : (int64_t)v;
  bool neg = x < 0;
  uint64_t k = (uint64_t)(neg ? -x : x) - INT_MAGIC;
  if (k >= intMagics.size()) return false;
  Val r = intMagics[k];
  if (w < 64) r = bvCast(llvm::Instruction::Trunc, r, 64, w);
  if (neg) r = bvBin(llvm::Instruction::Sub, C(0), r, w);
  *out = r;
  return true;
}
uint64_t modelBV(Z3_model m, Z3_ast a, unsigned w) {
  Z3_ast v = nullptr;
  Z3_model_eval(Z, m, a, true, &v);
  if (w == 1) return Z3_get_bool_value(Z, v) == Z3_L_TRUE;
  uint64_t n = 0;
  numeral(v, &n);
  return n;
}
Z3_model pathModel() {
  if (!M) {
    Z3_model m = nullptr;
    int r = check(S, &m);
    if (r == 1) M = m;
  }
  return M;
}
void applyLimits() { setRlimit(S, rlimitBranch); }
