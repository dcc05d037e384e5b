// Models of the C/C++ runtime functions whose arguments may carry symbols, and the vp_* harness interface.
#include "engine.h"
extern bool resolution;
extern unsigned rlimitAssert, rlimitBranch;
void applyLimits();
#include <cmath>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <iostream>
#include <typeinfo>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
using namespace llvm;
std::string demangle(const std::string &s);
extern std::string repoFnName();
extern std::string cexDir;
extern long forksMade;
static bool constHash = false;
static int tier = 0;
#define H(name) static bool name(const CallBase *cb, Val *a, int n, Val *ret)
static uint64_t cc(Val v) { return v.e ? concretize(v, 64) : v.v; }
static uint64_t c32(Val v) { return (v.e ? concretize(v, 32) : v.v) & 0xffffffffu; }
static void noSpec() { if (specDepth) throw SpecFail(); }

// ------------------------------------------------------------------ allocation
H(hMalloc) { ret[0] = C((uint64_t)arenaAlloc(cc(a[0]), 16, 1)); return true; }
H(hCalloc) {
  uint64_t k = cc(a[0]) * cc(a[1]);
  void *p = arenaAlloc(k, 16, 1);
  if (p) memset(p, 0, k);
  ret[0] = C((uint64_t)p);
  return true;
}
H(hRealloc) {
  uint64_t p = cc(a[0]), k = cc(a[1]);
  if (!p) return hMalloc(cb, a + 1, 1, ret);
  if (!inArena(p)) return false;
  noSpec();
  void *q = arenaAlloc(k, 16, 1);
  uint64_t o = arenaSize((void *)p);
  if (q) {
    copyMem((uint64_t)q, p, o < k ? o : k);
    arenaFree((void *)p, "realloc");
  }
  ret[0] = C((uint64_t)q);
  return true;
}
H(hNew) {
  uint64_t k = cc(a[0]);
  void *p = arenaAlloc(k, 16, 2);
  if (!p) violation("exception", "uncaught exception (std::bad_alloc) in " + repoFnName());
  ret[0] = C((uint64_t)p);
  return true;
}
H(hNewAl) {
  void *p = arenaAlloc(cc(a[0]), cc(a[1]), 2);
  if (!p) violation("exception", "uncaught exception (std::bad_alloc) in " + repoFnName());
  ret[0] = C((uint64_t)p);
  return true;
}
H(hFree) {
  uint64_t p = cc(a[0]);
  if (!p) return true;
  noSpec();
  if (inArena(p)) arenaFree((void *)p, "free");
  else ::free((void *)p);
  return true;
}
// ------------------------------------------------------------------ strings and memory
H(hMemcpy) {
  uint64_t d = cc(a[0]), s = cc(a[1]), k = cc(a[2]);
  ret[0] = C(d);
  if (!k) return true;
  checkAccess(s, k, false);
  checkAccess(d, k, true);
  copyMem(d, s, k);
  return true;
}
H(hMemset) {
  uint64_t d = cc(a[0]), k = cc(a[2]);
  ret[0] = C(d);
  if (!k) return true;
  checkAccess(d, k, true);
  if (a[1].e) a[1] = bvCast(Instruction::Trunc, a[1], 32, 8);
  setMem(d, a[1].e ? a[1] : C(a[1].v & 255), k);
  return true;
}
static Val byteAt(uint64_t p) {
  checkAccess(p, 1, false);
  return loadMem(p, 1);
}
static bool byteIs(Val b, uint64_t c) {
  if (!b.e) return b.v == c;
  return decide(bvCmp(CmpInst::ICMP_EQ, b, C(c), 8));
}
H(hMemcmp) {
  uint64_t p = cc(a[0]), q = cc(a[1]), k = cc(a[2]);
  ret[0] = C(0);
  if (!k) return true;
  checkAccess(p, k, false);
  checkAccess(q, k, false);
  if (!hasSym(p, k) && !hasSym(q, k)) {
    int r = memcmp((void *)p, (void *)q, k);
    ret[0] = C((uint32_t)(r < 0 ? -1 : r > 0));
    return true;
  }
  for (uint64_t i = 0; i < k; ++i) {
    Val x = loadMem(p + i, 1), y = loadMem(q + i, 1);
    if (sameVal(x, y)) continue;
    if (decide(bvCmp(CmpInst::ICMP_EQ, x, y, 8))) continue;
    ret[0] = decide(bvCmp(CmpInst::ICMP_ULT, x, y, 8)) ? C(0xffffffffu) : C(1);
    return true;
  }
  return true;
}
H(hBcmp) {
  uint64_t p = cc(a[0]), q = cc(a[1]), k = cc(a[2]);
  ret[0] = C(0);
  if (!k) return true;
  checkAccess(p, k, false);
  checkAccess(q, k, false);
  if (!hasSym(p, k) && !hasSym(q, k)) {
    ret[0] = C(memcmp((void *)p, (void *)q, k) != 0);
    return true;
  }
  Val ne = C(0);
  for (uint64_t i = 0; i < k; ++i) {
    Val x = loadMem(p + i, 1), y = loadMem(q + i, 1);
    if (sameVal(x, y)) continue;
    Val d = bvCmp(CmpInst::ICMP_NE, x, y, 8);
    if (!d.e) {
      if (d.v) { ret[0] = C(1); return true; }
      continue;
    }
    ne = bvBin(Instruction::Or, ne, d, 1);
  }
  ret[0] = bvCast(Instruction::ZExt, ne, 1, 32);
  return true;
}
H(hStrlen) {
  uint64_t p = cc(a[0]);
  for (uint64_t i = 0;; ++i)
    if (byteIs(byteAt(p + i), 0)) { ret[0] = C(i); return true; }
}
static bool scmp(uint64_t p, uint64_t q, uint64_t k, Val *ret) {
  for (uint64_t i = 0; i < k; ++i) {
    Val x = byteAt(p + i), y = byteAt(q + i);
    if (!sameVal(x, y) && !decide(bvCmp(CmpInst::ICMP_EQ, x, y, 8))) {
      ret[0] = decide(bvCmp(CmpInst::ICMP_ULT, x, y, 8)) ? C(0xffffffffu) : C(1);
      return true;
    }
    if (byteIs(x, 0)) break;
  }
  ret[0] = C(0);
  return true;
}
H(hStrcmp) { return scmp(cc(a[0]), cc(a[1]), ~0ull, ret); }
H(hStrncmp) { return scmp(cc(a[0]), cc(a[1]), cc(a[2]), ret); }
H(hMemchr) {
  uint64_t p = cc(a[0]), k = cc(a[2]), ch = c32(a[1]) & 255;
  for (uint64_t i = 0; i < k; ++i)
    if (byteIs(byteAt(p + i), ch)) { ret[0] = C(p + i); return true; }
  ret[0] = C(0);
  return true;
}
H(hStrchr) {
  uint64_t p = cc(a[0]), ch = c32(a[1]) & 255;
  for (uint64_t i = 0;; ++i) {
    Val b = byteAt(p + i);
    if (byteIs(b, ch)) { ret[0] = C(p + i); return true; }
    if (byteIs(b, 0)) { ret[0] = C(0); return true; }
  }
}
H(hStrcpy) {
  uint64_t d = cc(a[0]), s = cc(a[1]);
  for (uint64_t i = 0;; ++i) {
    Val b = byteAt(s + i);
    checkAccess(d + i, 1, true);
    storeMem(d + i, 1, b);
    if (byteIs(b, 0)) break;
  }
  ret[0] = C(d);
  return true;
}
H(hStrncpy) {
  uint64_t d = cc(a[0]), s = cc(a[1]), k = cc(a[2]);
  bool end = false;
  for (uint64_t i = 0; i < k; ++i) {
    Val b = end ? C(0) : byteAt(s + i);
    checkAccess(d + i, 1, true);
    storeMem(d + i, 1, b);
    if (!end && byteIs(b, 0)) end = true;
  }
  ret[0] = C(d);
  return true;
}
H(hStrcat) {
  Val l;
  Val x[1] = {a[0]};
  hStrlen(cb, x, 1, &l);
  Val y[2] = {C(cc(a[0]) + l.v), a[1]};
  Val r;
  hStrcpy(cb, y, 2, &r);
  ret[0] = C(cc(a[0]));
  return true;
}
H(hStrdup) {
  Val l;
  hStrlen(cb, a, 1, &l);
  uint64_t p = (uint64_t)arenaAlloc(l.v + 1, 16, 1);
  copyMem(p, cc(a[0]), l.v + 1);
  ret[0] = C(p);
  return true;
}
H(hStrdupCheck) {  // native string readers: check that the text is readable
  Val l;
  hStrlen(cb, a, 1, &l);
  if (hasSym(cc(a[0]), l.v)) pathError("native string conversion of symbolic text");
  return false;
}
// ------------------------------------------------------------------ mathematics
#define MATH1(id, fn, impl)                                                                            \
  H(id) {                                                                                               \
    if (symMath(fn, a, n, ret)) return true;                                                            \
    ret[0] = CD(impl(D(a[0].v)));                                                                       \
    return true;                                                                                        \
  }
MATH1(hLog, "log", std::log)
MATH1(hExp, "exp", std::exp)
MATH1(hLog1p, "log1p", std::log1p)
MATH1(hExpm1, "expm1", std::expm1)
MATH1(hLog2, "log2", std::log2)
MATH1(hLog10, "log10", std::log10)
MATH1(hFabs, "fabs", std::fabs)
MATH1(hSqrt, "sqrt", std::sqrt)
MATH1(hFloor, "floor", std::floor)
MATH1(hCeil, "ceil", std::ceil)
MATH1(hRound, "round", std::round)
MATH1(hTrunc, "trunc", std::trunc)
H(hPow) {
  if (symMath("pow", a, n, ret)) return true;
  ret[0] = CD(std::pow(D(a[0].v), D(a[1].v)));
  return true;
}
H(hFmax) {
  if (symMath("fmax", a, n, ret)) return true;
  ret[0] = CD(std::fmax(D(a[0].v), D(a[1].v)));
  return true;
}
H(hFmin) {
  if (symMath("fmin", a, n, ret)) return true;
  ret[0] = CD(std::fmin(D(a[0].v), D(a[1].v)));
  return true;
}
// ------------------------------------------------------------------ termination
static std::string cstr(uint64_t p) {
  std::string s;
  for (int i = 0; i < 200; ++i) {
    char c = *(char *)(p + i);
    if (!c) break;
    s += c;
  }
  return s;
}
H(hAssertFail) {
  noSpec();
  std::string e = cstr(cc(a[0]));
  if (e.size() > 60) e = e.substr(0, 60);
  violation("assert", "assertion failed in " + repoFnName() + ": " + e);
}
H(hAbort) { noSpec(); violation("crash", "abort in " + repoFnName()); }
H(hTerminate) { noSpec(); violation("exception", "std::terminate in " + repoFnName()); }
H(hExit) {
  noSpec();
  violation("crash", "exit(" + std::to_string((int)c32(a[0])) + ") in " + repoFnName());
}
H(hPure) { noSpec(); violation("crash", "pure virtual call in " + repoFnName()); }
H(hThrow) {
  noSpec();
  std::string nm = "?";
  const std::type_info *ti = (const std::type_info *)cc(a[1]);
  if (ti && !inArena((uint64_t)ti)) nm = demangle(ti->name());
  else if (ti) nm = demangle(cstr(((uint64_t *)ti)[1]));
  violation("exception", "uncaught exception (" + nm + ") in " + repoFnName());
}
H(hAllocExc) { ret[0] = C((uint64_t)arenaAlloc(cc(a[0]), 16, 1)); return true; }
H(hNop) { if (!cb->getType()->isVoidTy()) ret[0] = C(0); return true; }
H(hGuardAcquire) {
  uint64_t g = cc(a[0]);
  ret[0] = C(*(uint8_t *)g == 0);
  return true;
}
H(hGuardRelease) {
  storeMem(cc(a[0]), 1, C(1));
  return true;
}
// ------------------------------------------------------------------ printing
// Each symbolic double is printed as a stand-in number; reading that number back yields the symbol
// with the rounding of the chosen format.
static double tolOf(char conv, int prec) {
  if (conv == 'f' || conv == 'F') return 0.5 * std::pow(10.0, -prec);
  if (prec >= 15) return 1e-10;
  relPrinted = true;
  return 0.5 * std::pow(10.0, -prec) * 1000;  // relative formats: magnitudes below 1000 (logarithms of normal doubles)
}
static bool fmtDoubles(const char *fmt, std::vector<std::pair<char, int>> *out) {
  for (const char *p = fmt; *p; ++p) {
    if (*p != '%') continue;
    ++p;
    if (*p == '%') continue;
    int prec = 6;
    while (*p && strchr("-+ #0123456789", *p)) ++p;
    if (*p == '*') return false;
    if (*p == '.') {
      ++p;
      if (*p == '*') return false;
      prec = 0;
      while (*p >= '0' && *p <= '9') prec = prec * 10 + *p++ - '0';
    }
    while (*p && strchr("hlzjt", *p)) ++p;
    if (*p == 'L' || !*p) return false;
    out->push_back({*p, prec});
  }
  return true;
}
static Val stand(Val v, char conv, int prec) {
  double d;
  if (v.e && isRealKind(v.e)) return magicFor(v, tolOf(conv, prec), &d);
  if (v.e) pathError("printing an IEEE symbol");
  return v;
}
static bool vprint(uint64_t fmtp, uint64_t va) {
  uint64_t area = *(uint64_t *)(va + 8);
  std::vector<std::pair<char, int>> f;
  if (!fmtDoubles((const char *)fmtp, &f)) {
    if (hasSym(area, 64)) pathError("format not modelled");
    return false;
  }
  if (*(uint32_t *)va != 48) return false;  // a real va_list
  for (size_t i = 0; i < f.size(); ++i) {
    Val v = loadMem(area + 8 * i, 8);
    if (!v.e) {
      if (f[i].first == 's') {
        Val r, x[1] = {v};
        if (v.v) hStrlen(nullptr, x, 1, &r);
        if (v.v && hasSym(v.v, r.v)) pathError("printing symbolic text");
      }
      continue;
    }
    noSpec();
    if (isRealKind(v.e)) storeMem(area + 8 * i, 8, stand(v, f[i].first, f[i].second));
    else storeMem(area + 8 * i, 8, C(concretize(v, 64)));
  }
  return false;
}
static bool variadic(Val *a, int n, int fmtIdx) {
  std::vector<std::pair<char, int>> f;
  if (!fmtDoubles((const char *)cc(a[fmtIdx]), &f)) return false;
  for (size_t i = 0; i < f.size() && fmtIdx + 1 + (int)i < n; ++i) {
    Val &v = a[fmtIdx + 1 + i];
    if (v.e && isRealKind(v.e)) { noSpec(); v = stand(v, f[i].first, f[i].second); }
    if (!v.e && f[i].first == 's') {
      Val r, x[1] = {v};
      if (v.v) hStrlen(nullptr, x, 1, &r);
      if (v.v && hasSym(v.v, r.v)) pathError("printing symbolic text");
    }
  }
  return false;
}
H(hVsnprintf) { vprint(cc(a[2]), cc(a[3])); checkAccess(cc(a[0]), cc(a[1]), true); return false; }
static bool sprintfLen(const CallBase *cb, Val *a, int n, int fmtIdx) {
  // bounds of the target: measure with a native snprintf on the concrete arguments we understand
  std::vector<std::pair<char, int>> f;
  if (!fmtDoubles((const char *)cc(a[fmtIdx]), &f)) return false;
  const char *p = (const char *)cc(a[fmtIdx]);
  uint64_t len = 0;
  size_t k = 0;
  for (; *p; ++p) {
    if (*p != '%') { ++len; continue; }
    ++p;
    if (*p == '%') { ++len; continue; }
    while (*p && !isalpha((unsigned char)*p)) ++p;
    while (*p && strchr("hlzjt", *p)) ++p;
    if (*p == 's' && fmtIdx + 1 + (int)k < n) len += strlen((const char *)cc(a[fmtIdx + 1 + k]));
    else len += 1;
    ++k;
  }
  checkAccess(cc(a[0]), len + 1, true);
  return false;
}
H(hSprintf) { variadic(a, n, 1); sprintfLen(cb, a, n, 1); return false; }
H(hSnprintf) { variadic(a, n, 2); return false; }
H(hFprintf) { variadic(a, n, 1); return false; }
H(hPrintf) { variadic(a, n, 0); return false; }
H(hOstreamDouble) {
  if (a[1].e && isRealKind(a[1].e)) {
    noSpec();
    std::ostream *os = (std::ostream *)cc(a[0]);
    auto fl = os->flags() & std::ios_base::floatfield;
    a[1] = stand(a[1], fl == std::ios_base::fixed ? 'f' : 'g', os->precision());
  }
  return false;
}
H(hOstreamInsert) {
  uint64_t p = cc(a[1]), k = cc(a[2]);
  if (hasSym(p, k)) {
    noSpec();
    for (uint64_t i = 0; i < k; ++i) {
      Val b = loadMem(p + i, 1);
      if (b.e) storeMem(p + i, 1, C(concretize(b, 8)));
    }
  }
  return false;
}
H(hHashBytes) {
  uint64_t p = cc(a[0]), k = cc(a[1]);
  if (constHash) { ret[0] = C(0x51ed); return true; }
  if (hasSym(p, k)) {
    for (uint64_t i = 0; i < k; ++i) {
      Val b = loadMem(p + i, 1);
      if (b.e) storeMem(p + i, 1, C(concretize(b, 8)));
    }
  }
  static size_t (*f)(const void *, size_t, size_t) = (size_t(*)(const void *, size_t, size_t))dlsym(RTLD_DEFAULT, "_ZSt11_Hash_bytesPKvmm");
  ret[0] = C(f((void *)p, k, cc(a[2])));
  return true;
}
// pure red-black tree walks of libstdc++ (allowed while merging)
#define PURE(id, sym)                                                                                  \
  H(id) {                                                                                              \
    static void *(*f)(void *) = (void *(*)(void *))dlsym(RTLD_DEFAULT, sym);                           \
    ret[0] = C((uint64_t)f((void *)cc(a[0])));                                                         \
    return true;                                                                                       \
  }
PURE(hRbInc, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base")
PURE(hRbIncC, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
PURE(hRbDec, "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base")
PURE(hRbDecC, "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
// ------------------------------------------------------------------ harness interface
static std::string nm(Val p) { return cstr(cc(p)); }
H(vChoice) {
  noSpec();
  uint64_t k = cc(a[1]);
  if (k == 0) finishPath("assume");
  uint64_t pick = k - 1;
  for (uint64_t i = 0; i + 1 < k; ++i)
    if (doFork()) { pick = i; break; }
  Event e;
  e.kind = 'c';
  e.name = nm(a[0]);
  e.v = pick;
  e.w = 64;
  e.a = nullptr;
  e.var = 0;
  events.push_back(e);
  ret[0] = C(pick);
  return true;
}
H(vBits) {
  noSpec();
  unsigned w = (unsigned)c32(a[1]);
  Val v = freshBV(nm(a[0]).c_str(), w);
  if (w < 64) v = bvCast(Instruction::ZExt, v, w, 64);
  ret[0] = v;
  return true;
}
H(vReal) {
  noSpec();
  ret[0] = freshReal(nm(a[0]).c_str());
  return true;
}
H(vDouble) {  // any IEEE double, as a bit-vector symbol
  noSpec();
  Val v = freshBV(nm(a[0]).c_str(), 64);
  ret[0] = fpCast(Instruction::BitCast, v, 64, 64);
  return true;
}
H(vAssume) { noSpec(); Val c = a[0]; if (c.e && c.e->k == E_BV && c.e->w != 1) c = bvCmp(CmpInst::ICMP_NE, c, C(0), c.e->w); else if (!c.e) c = C(c.v != 0); vpAssume(c); return true; }
H(vAssert) {
  noSpec();
  Val c = a[0];
  if (c.e && c.e->k == E_BV && c.e->w != 1) c = bvCmp(CmpInst::ICMP_NE, c, C(0), c.e->w);
  else if (!c.e) c = C(c.v != 0);
  vpAssert(c, nm(a[1]));
  return true;
}
H(vLogEq) { noSpec(); vpAssertLog(0, a[0], a[1], 0, nm(a[2])); return true; }
H(vLogLe) { noSpec(); vpAssertLog(1, a[0], a[1], 0, nm(a[2])); return true; }
H(vLogNear) { noSpec(); vpAssertLog(2, a[0], a[1], D(a[2].v), nm(a[3])); return true; }
H(vCover) {
  noSpec();
  std::string s = nm(a[0]).substr(0, 63);
  shLock();
  int i = 0;
  for (; i < sh->ncovers; ++i)
    if (s == sh->coverNames[i]) break;
  if (i == sh->ncovers && i < 511) {
    snprintf(sh->coverNames[i], 64, "%s", s.c_str());
    sh->ncovers = i + 1;
  }
  sh->covers[i]++;
  shUnlock();
  return true;
}
H(vTier) { ret[0] = C(tier); return true; }
H(vSymbolic) { ret[0] = C(1); return true; }
H(vMode) {
  noSpec();
  std::string m = nm(a[0]);
  int v = (int)c32(a[1]);
  if (m == "real") realMode = v;
  else if (m == "fp") fpMode = v;
  else if (m == "rcfork") rcForkLimit = v;
  else if (m == "resolution") resolution = v;
  else if (m == "eqfork") eqForkLimit = v;
  else if (m == "rlimit") rlimitAssert *= v, rlimitBranch *= v, applyLimits();
  else if (m == "consthash") constHash = v;
  else pathError("mode " + m);
  return true;
}
// Files written below the scratch directory belong to one path: after a fork both sides keep what was written before it
// and write under names of their own.
struct PrivateFile { std::string name; pid_t owner; long forks; };
static std::map<std::string, PrivateFile> *privateFiles;
static std::string plainPath(const char *p) {
  std::string r, full;
  if (p[0] != '/') {                         // relative to the working directory
    char cwd[4096];
    if (getcwd(cwd, sizeof cwd)) full = std::string(cwd) + "/" + p, p = full.c_str();
  }
  for (const char *q = p; *q;) {
    if (q[0] == '/' && q[1] == '.' && (q[2] == '/' || !q[2])) { q += 2; continue; }
    if (q[0] == '/' && q[1] == '.' && q[2] == '.' && (q[3] == '/' || !q[3])) {
      q += 3;
      r.erase(r.rfind('/') == std::string::npos ? 0 : r.rfind('/'));
      continue;
    }
    if (q[0] == '/' && q[1] == '/') { ++q; continue; }
    r += *q++;
  }
  return r;
}
static std::string privateName(const char *path, const char *mode) {
  if (!path || cexDir.empty()) return "";
  std::string p = plainPath(path), d = plainPath(cexDir.c_str()) + "/";
  if (p.compare(0, d.size(), d) != 0) return "";
  std::string base = p.substr(d.size());
  if (base.compare(0, 3, "cex") == 0 || base.compare(0, 9, "functions") == 0) return "";
  if (!privateFiles) privateFiles = new std::map<std::string, PrivateFile>;
  auto it = privateFiles->find(p);
  if (mode[0] == 'r' && !strchr(mode, '+')) return it == privateFiles->end() ? d + "none" : it->second.name;
  static int k = 0;
  std::string fresh = d + "w" + std::to_string(getpid()) + "_" + std::to_string(k++);
  if (mode[0] != 'w' && it != privateFiles->end()) {  // appending or updating: on a copy
    std::ifstream a(it->second.name.c_str(), std::ios::binary);
    std::ofstream b(fresh.c_str(), std::ios::binary);
    b << a.rdbuf();
  }
  (*privateFiles)[p] = {fresh, getpid(), forksMade};
  return fresh;
}
static FILE *openFile(const char *sym, const char *path, const char *mode) {
  static FILE *(*f)(const char *, const char *) = nullptr;
  if (!f) f = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, "fopen");
  static int depth = 0;
  if (depth) return f(path, mode);
  ++depth;
  std::string p = privateName(path, mode);
  --depth;
  return f(p.empty() ? path : p.c_str(), mode);
}
extern "C" {
FILE *fopen(const char *path, const char *mode) { return openFile("fopen", path, mode); }
FILE *fopen64(const char *path, const char *mode) { return openFile("fopen64", path, mode); }
int unlink(const char *path) __THROW {
  static int (*f)(const char *) = (int (*)(const char *))dlsym(RTLD_NEXT, "unlink");
  std::string d = plainPath(cexDir.c_str()) + "/", p = plainPath(path);
  if (!cexDir.empty() && privateFiles) {
    auto it = privateFiles->find(p);
    if (it != privateFiles->end()) {
      // another path may still read it
      if (it->second.owner == getpid() && it->second.forks == forksMade) f(it->second.name.c_str());
      privateFiles->erase(it);
      return 0;
    }
  }
  return f(path);
}
}
H(vTmp) {
  static char buf[512];
  static int k = 0;
  noSpec();
  snprintf(buf, sizeof buf, "%s/p%d_%d", cexDir.c_str(), (int)getpid(), k++);
  ret[0] = C((uint64_t)strdup(buf));
  return true;
}
// text that reads back as the given (possibly symbolic) value, without rounding
H(vTextReal) {
  noSpec();
  char b[64];
  double d = D(a[0].v);
  if (a[0].e) {
    if (!isRealKind(a[0].e)) pathError("printing an IEEE symbol");
    magicFor(a[0], 0, &d);
  }
  snprintf(b, sizeof b, "%.17g", d);
  ret[0] = C((uint64_t)strdup(b));
  return true;
}
H(vTextInt) {
  noSpec();
  char b[64];
  snprintf(b, sizeof b, "%ld", a[0].e ? (long)intMagicFor(a[0]) : (long)a[0].v);
  ret[0] = C((uint64_t)strdup(b));
  return true;
}
H(vUnlink) { noSpec(); std::string s = cstr(cc(a[0])); if (s.compare(0, cexDir.size(), cexDir) == 0) unlink(s.c_str()); return true; }
H(vEnd) { noSpec(); finishPath("ok"); }
H(vConc) { noSpec(); ret[0] = C(concretize(a[0], 64)); return true; }
H(vIsSym) { ret[0] = C(a[0].e != nullptr); return true; }
H(vLog) { noSpec(); if (getenv("VP_VERBOSE")) { fprintf(stderr, "[log] %s %ld %g sym=%d\n", nm(a[0]).c_str(), (long)a[1].v, D(a[1].v), a[1].e != nullptr); } return true; }
H(vTrace) { noSpec(); if (getenv("VP_VERBOSE")) fprintf(stderr, "[trace] %s\n", stackTrace().c_str()); return true; }

Handler findHandler(const std::string &name) {
  static std::unordered_map<std::string, Handler> t = {
      {"malloc", hMalloc}, {"calloc", hCalloc}, {"realloc", hRealloc}, {"free", hFree}, {"cfree", hFree},
      {"_Znwm", hNew}, {"_Znam", hNew}, {"_ZnwmRKSt9nothrow_t", hNew}, {"_ZnamRKSt9nothrow_t", hNew},
      {"_ZnwmSt11align_val_t", hNewAl}, {"_ZnamSt11align_val_t", hNewAl},
      {"_ZdlPv", hFree}, {"_ZdaPv", hFree}, {"_ZdlPvm", hFree}, {"_ZdaPvm", hFree}, {"_ZdlPvSt11align_val_t", hFree}, {"_ZdlPvmSt11align_val_t", hFree},
      {"_ZdaPvSt11align_val_t", hFree}, {"_ZdaPvmSt11align_val_t", hFree}, {"_ZdlPvRKSt9nothrow_t", hFree}, {"_ZdaPvRKSt9nothrow_t", hFree},
      {"memcpy", hMemcpy}, {"memmove", hMemcpy}, {"memset", hMemset}, {"memcmp", hMemcmp}, {"bcmp", hBcmp}, {"strlen", hStrlen},
      {"strcmp", hStrcmp}, {"strncmp", hStrncmp}, {"memchr", hMemchr}, {"strchr", hStrchr}, {"strcpy", hStrcpy}, {"strncpy", hStrncpy}, {"strcat", hStrcat}, {"strdup", hStrdup},
      {"atoi", hStrdupCheck}, {"atof", hStrdupCheck}, {"strtol", hStrdupCheck}, {"strtod", hStrdupCheck}, {"strtoul", hStrdupCheck}, {"strtoll", hStrdupCheck}, {"strtoull", hStrdupCheck},
      {"log", hLog}, {"exp", hExp}, {"log1p", hLog1p}, {"expm1", hExpm1}, {"log2", hLog2}, {"log10", hLog10}, {"fabs", hFabs}, {"sqrt", hSqrt},
      {"floor", hFloor}, {"ceil", hCeil}, {"round", hRound}, {"trunc", hTrunc}, {"pow", hPow}, {"fmax", hFmax}, {"fmin", hFmin},
      {"__assert_fail", hAssertFail}, {"abort", hAbort}, {"exit", hExit}, {"_exit", hExit}, {"_ZSt9terminatev", hTerminate}, {"__clang_call_terminate", hTerminate},
      {"__cxa_pure_virtual", hPure}, {"__cxa_throw", hThrow}, {"__cxa_rethrow", hThrow}, {"__cxa_allocate_exception", hAllocExc}, {"__cxa_free_exception", hFree},
      {"__cxa_atexit", hNop}, {"__cxa_thread_atexit", hNop}, {"atexit", hNop},
      {"__cxa_guard_acquire", hGuardAcquire}, {"__cxa_guard_release", hGuardRelease}, {"__cxa_guard_abort", hNop},
      {"vsnprintf", hVsnprintf}, {"sprintf", hSprintf}, {"snprintf", hSnprintf}, {"fprintf", hFprintf}, {"printf", hPrintf},
      {"_ZNSo9_M_insertIdEERSoT_", hOstreamDouble}, {"_ZNSolsEd", hOstreamDouble},
      {"_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", hOstreamInsert},
      {"_ZSt11_Hash_bytesPKvmm", hHashBytes},
      {"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", hRbInc}, {"_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", hRbIncC},
      {"_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", hRbDec}, {"_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", hRbDecC},
      {"vp_choice", vChoice}, {"vp_bits", vBits}, {"vp_real", vReal}, {"vp_double", vDouble}, {"vp_assume", vAssume}, {"vp_assert", vAssert},
      {"vp_log_eq", vLogEq}, {"vp_log_le", vLogLe}, {"vp_log_near", vLogNear}, {"vp_cover", vCover}, {"vp_tier", vTier}, {"vp_symbolic", vSymbolic},
      {"vp_mode", vMode}, {"vp_tmp", vTmp}, {"vp_unlink", vUnlink}, {"vp_text_real", vTextReal}, {"vp_text_int", vTextInt}, {"vp_end", vEnd}, {"vp_concrete", vConc}, {"vp_is_symbol", vIsSym}, {"vp_is_symbol_d", vIsSym}, {"vp_log", vLog}, {"vp_trace", vTrace}};
  static bool init = false;
  if (!init) {
    init = true;
    const char *e = getenv("VERIF_TIER");
    tier = e && std::string(e) == "thorough";
  }
  auto it = t.find(name);
  return it == t.end() ? nullptr : it->second;
}
