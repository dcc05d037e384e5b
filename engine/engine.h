#pragma once
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <gmpxx.h>
#include <z3.h>
#include "rf.h"

namespace llvm { class Function; class Module; class Instruction; class CallBase; class Type; class FunctionType; class DataLayout; class Constant; class GlobalVariable; }

// ---------------------------------------------------------------- symbolic values
// E_BV   z3 bit-vector (a Bool sort never appears; width 1 is a 1-bit vector... kept as Bool, see boolAst)
// E_RC   truth of  r PRED 0
// E_REAL the real number r          E_SLOG scale * log(r)
// E_HASH truncated integer of scale*log(r) (PsddParameter's hash)
// E_FP   z3 Float64 term            E_FPC never used
enum EK { E_BV, E_RC, E_REAL, E_SLOG, E_HASH, E_FP };
enum RPred { R_GT, R_GE, R_EQ, R_NE };
struct Expr {
  EK k;
  unsigned w = 64;
  Z3_ast a = nullptr;   // E_BV (Bool when w==1), E_FP
  RatFun r;
  mpq_class scale = 1;
  RPred pred = R_GT;
  uint32_t tag = 0;     // memory word id + 1
};
struct Val {
  uint64_t v;
  Expr *e;
};
static inline Val C(uint64_t v) { return Val{v, nullptr}; }
static inline Val CD(double d) { uint64_t u; memcpy(&u, &d, 8); return Val{u, nullptr}; }
static inline double D(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// thrown to abandon a speculative execution of a branch region
struct SpecFail {};
extern int specDepth;

// sym.cpp
extern Z3_context Z;
extern bool realMode, fpMode;
void symInit();
Val bvVal(Z3_ast a, unsigned w);            // simplify, concretise when constant
Z3_ast bvAst(Val v, unsigned w);            // bit-vector of width w
Z3_ast boolAst(Val v);                      // for w==1
Val bvBin(unsigned llvmOp, Val a, Val b, unsigned w);
Val bvCmp(unsigned pred, Val a, Val b, unsigned w);
Val bvCast(unsigned llvmOp, Val a, unsigned from, unsigned to);
Val bvIte(Val c, Val a, Val b, unsigned w);
Val bvExtractByte(Val a, unsigned w, unsigned i);
Val mkReal(const RatFun &r);
Val mkLog(const RatFun &r, const mpq_class &scale = 1);
Val fpBin(unsigned llvmOp, Val a, Val b);
Val fpCmp(unsigned pred, Val a, Val b);
Val fpNeg(Val a);
Val fpCast(unsigned llvmOp, Val a, unsigned from, unsigned to);
bool symMath(const std::string &fn, const Val *args, int n, Val *ret);
bool sameVal(Val a, Val b);                  // provably equal
bool decide(Val c);                          // branch on a width-1 value (may fork)
bool mayBranch(Val c, int *forced);          // false if only one side is possible (BV only)
uint64_t concretize(Val v, unsigned w);      // forks over the feasible values
double concretizeD(Val v);                   // witness value of a real-kind value
bool isRealKind(const Expr *e);
Val notVal(Val c);
Val freshBV(const char *name, unsigned w);
Val freshReal(const char *name);
void vpAssert(Val c, const std::string &label);
void vpAssume(Val c);
void vpAssertLog(int rel, Val a, Val b, double tol, const std::string &label);  // rel 0 eq, 1 a<=b, 2 |a-b|<=tol
extern bool relPrinted;
Val magicFor(Val v, double tol, double *out);
bool magicLookup(uint64_t bits, Val *out);
static const uint64_t INT_MAGIC = 1587600000;
uint64_t intMagicFor(Val v);
bool intMagicLookup(uint64_t v, unsigned w, Val *out);
extern bool magicOn, intMagicOn;
mpq_class qd(double d);

// path/process control (ctl.cpp)
struct Shared {
  volatile long running, forks, paths, pathsOk, pathsViol, pathsCut, pathsAssume, pathsErr, queries, qsat, qunsat, qunknown, asserts,
      assertsSolver, branches, symBranches, cutBranches, cutCmp, infeasible, merged, instrs, stop, nviol, outOfBudget, procs, peakProcs, algebraic, nontrivial;
  volatile double solverS;
  volatile double maxQ;
  volatile uint32_t siteCnt[1 << 16];
  volatile uint8_t fnSeen[1 << 16];
  volatile uint32_t covers[512];
  char coverNames[512][64];
  volatile int ncovers;
  char samples[8][1024];
  volatile long nsamples;
  char errMsg[1024];
  char violLabel[64][160];
  volatile int violCnt[64];
  volatile int nlabels;
  volatile int lock;
};
extern Shared *sh;
void shLock();
void shUnlock();
extern int maxProcs;
extern int rcForkLimit, eqForkLimit;
extern unsigned rlimitBranch, rlimitAssert;
extern double deadline;
extern long maxPaths;
bool doFork();                 // true in the new process
[[noreturn]] void finishPath(const char *how);
[[noreturn]] void pathError(const std::string &msg);   // engine limitation
[[noreturn]] void violation(const std::string &kind, const std::string &label);  // on the current path (model of the path)
uint32_t siteHash();
struct Event { char kind; std::string name; uint64_t v; unsigned w; Z3_ast a; uint32_t var; };  // kind: c choice, b bv, r real
extern std::vector<Event> events;
extern std::vector<mpq_class> witness;  // per real variable
// violation found by a solver query: values come from the failing model
[[noreturn]] void violationModel(const std::string &kind, const std::string &label, Z3_model m, const std::vector<mpq_class> *wit);
double nowS();
std::string stackTrace();
std::string pathSample();

// mem.cpp
static const uint64_t ARENA = 0x100000000000ull;
static const uint64_t ARENA_SZ = 16ull << 30;
static const uint64_t STK = ARENA + (12ull << 30);
void memInit();
void *arenaAlloc(size_t n, size_t align, int kind);
void arenaFree(void *p, const char *how);
size_t arenaSize(void *p);
static inline bool inArena(uint64_t a) { return a - ARENA < ARENA_SZ; }
void checkAccess(uint64_t a, uint64_t n, bool wr);
Val loadMem(uint64_t a, unsigned bytes);
void storeMem(uint64_t a, unsigned bytes, Val v);
bool hasSym(uint64_t a, uint64_t n);
void copyMem(uint64_t d, uint64_t s, uint64_t n);
void setMem(uint64_t d, Val c, uint64_t n);
uint64_t stackMark();
void stackRelease(uint64_t m);
uint64_t stackAlloc(uint64_t n, uint64_t align);
struct WLog { uint64_t a; uint64_t old; };
extern std::vector<WLog> *wlog;     // non-null while speculating

// interp.cpp
struct FnInfo;
FnInfo *fnFor(llvm::Function *f);
void execFn(FnInfo *f, const Val *args, int nargs, Val *ret, const Val *va = nullptr, int nva = 0);
void loadModule(const char *bc);
void runCtors();
FnInfo *findFn(const char *name);
uint64_t fnAddr(llvm::Function *f);
typedef bool (*Handler)(const llvm::CallBase *cb, Val *args, int n, Val *ret);
Handler findHandler(const std::string &name);
extern long icount;
const llvm::Instruction *curInst();
void callAddr(uint64_t fn, Val *args, int n, Val *ret);
std::vector<std::string> executedRepoFns();
