#include "engine.h"
#include <cmath>
#include <cxxabi.h>
#include <dlfcn.h>
#include <ffi.h>
#include <stdexcept>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

long icount = 0;
static LLVMContext ctx;
static Module *Mod;
static const DataLayout *DL;
extern std::string cexDir;

enum OpK : uint16_t {
  O_BIN, O_FBIN, O_FBIN32, O_FNEG, O_ICMP, O_FCMP, O_CAST, O_FCAST, O_SELECT, O_GEP, O_LOAD, O_STORE, O_ALLOCA, O_CALL, O_BR, O_CBR, O_SWITCH, O_RET,
  O_UNREACH, O_MOVE, O_RMW, O_CMPX, O_BAD, O_LOADX, O_STOREX
};
struct Op {
  uint16_t k, sub;
  uint16_t w, w2;
  int32_t d, a, b, c;
  uint64_t imm;
  const Instruction *I;
};
struct Move { int32_t d, s; };
struct Edge { uint32_t pc; uint32_t blk; std::vector<Move> mv; };
struct GepTerm { int32_t idx; uint16_t w; int64_t scale; };
struct CallInfo {
  const CallBase *cb;
  Function *callee = nullptr;
  FnInfo *fi = nullptr;
  Handler h = nullptr;
  void *native = nullptr;
  unsigned iid = 0;
  int32_t calleeOp = 0;
  std::vector<int32_t> args;      // flattened
  std::vector<uint16_t> argBytes;  // 0 = not byval
  int nret = 0;
  int32_t edge = -1;
  bool prepared = false, ready = false;
  ffi_cif cif;
  std::vector<ffi_type *> ats;
  ffi_type *rt = nullptr;
};
struct FnInfo {
  Function *F;
  bool decoded = false;
  int nregs = 0, nargs = 0;
  std::vector<Op> ops;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<std::vector<GepTerm>> geps;
  std::vector<CallInfo *> calls;
  std::vector<std::pair<const SwitchInst *, std::vector<std::pair<uint64_t, int32_t>>>> switches;
  std::vector<uint32_t> blkPc;
  std::unordered_map<const BasicBlock *, uint32_t> blkIdx;
  std::vector<int> ipdom;  // per block, -1 none / -2 not computed
  bool pdDone = false;
  int idx = -1;
  bool repo = false;
  std::string name;
};
static std::unordered_map<Function *, FnInfo *> fns;
static std::vector<FnInfo *> fnList;
static std::unordered_map<uint64_t, Function *> addrFn;
static std::unordered_map<Function *, uint64_t> fnAddrs;
static std::unordered_map<const GlobalVariable *, uint64_t> gAddr;

struct Frame { FnInfo *f; const Op *op; };
static std::vector<Frame> cstack;
const Instruction *curInst() { return cstack.empty() || !cstack.back().op ? nullptr : cstack.back().op->I; }
std::string demangle(const std::string &s) {
  int st;
  char *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
  std::string r = st == 0 ? d : s;
  free(d);
  return r;
}
static std::string shortName(Function *F) {
  std::string n = demangle(F->getName().str());
  size_t p = n.find("[abi:");
  // drop the argument list
  int depth = 0;
  size_t cut = n.size();
  for (size_t i = 0; i < n.size(); ++i) {
    if (n[i] == '<') ++depth;
    else if (n[i] == '>') --depth;
    else if (n[i] == '(' && depth == 0) {
      if (n.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      cut = i;
      break;
    }
  }
  (void)p;
  return n.substr(0, cut);
}
static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (auto &dl = I->getDebugLoc()) {
    auto *sc = dyn_cast<DIScope>(dl.getScope());
    std::string f = sc ? sc->getFilename().str() : "";
    size_t p = f.rfind('/');
    if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(dl.getLine());
  }
  return "?";
}
std::string stackTrace() {
  std::string s;
  int n = 0;
  for (auto it = cstack.rbegin(); it != cstack.rend() && n < 14; ++it, ++n) {
    if (n) s += " < ";
    s += shortName(it->f->F).substr(0, 60) + "@" + locOf(it->op ? it->op->I : nullptr);
  }
  return s;
}
std::string repoFnName() {
  for (auto it = cstack.rbegin(); it != cstack.rend(); ++it)
    if (it->f->repo) return shortName(it->f->F);
  return cstack.empty() ? "?" : shortName(cstack.back().f->F);
}
uint32_t siteHash() {
  uint64_t h = 7;
  int n = 0;
  for (auto it = cstack.rbegin(); it != cstack.rend() && n < 3; ++it, ++n) {
    uint64_t x = (uint64_t)(it->op - it->f->ops.data()) + 131071ull * it->f->idx;
    h = (h ^ x) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  return (uint32_t)(h >> 7);
}
static int slotsOf(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) {
    int n = 0;
    for (auto *e : s->elements()) n += slotsOf(e);
    return n;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * slotsOf(v->getElementType());
  return 1;
}
static void scalarsOf(Type *t, uint64_t off, std::vector<std::pair<Type *, uint64_t>> &out) {
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) scalarsOf(s->getElementType(i), off + sl->getElementOffset(i), out);
    return;
  }
  if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); ++i) scalarsOf(a->getElementType(), off + i * sz, out);
    return;
  }
  if (auto *v = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(v->getElementType());
    for (uint64_t i = 0; i < v->getNumElements(); ++i) scalarsOf(v->getElementType(), off + i * sz, out);
    return;
  }
  out.push_back({t, off});
}
static unsigned bitsOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy() || t->isX86_FP80Ty()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  return 0;
}
// ------------------------------------------------------------------ constants
static void *nativeSym(const std::string &n) { return dlsym(RTLD_DEFAULT, n.c_str()); }
static uint64_t globalAddr(const GlobalVariable *g);
struct Bad { std::string m; };
static void evalConst(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) throw Bad{"wide integer"};
    out.push_back(C(ci->getZExtValue()));
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF();
    if (t->isFloatTy()) {
      float x = f.convertToFloat();
      uint32_t u;
      memcpy(&u, &x, 4);
      out.push_back(C(u));
      return;
    }
    if (t->isX86_FP80Ty()) {
      bool l;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
    }
    out.push_back(CD(f.convertToDouble()));
    return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(C(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    int n = slotsOf(t);
    for (int i = 0; i < n; ++i) out.push_back(C(0));
    return;
  }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { out.push_back(C(globalAddr(g))); return; }
  if (auto *f = dyn_cast<Function>(c)) { out.push_back(C(fnAddr(const_cast<Function *>(f)))); return; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) { evalConst(a->getAliasee(), out); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) evalConst(ca->getOperand(i), out);
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); ++i) evalConst(cd->getElementAsConstant(i), out);
    return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto one = [&](unsigned i) {
      std::vector<Val> o;
      evalConst(ce->getOperand(i), o);
      return o[0].v;
    };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto *gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) throw Bad{"gep constant"};
        out.push_back(C(one(0) + off.getSExtValue()));
        return;
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
        out.push_back(C(one(0) & maskW(bitsOf(t))));
        return;
      case Instruction::Trunc: out.push_back(C(one(0) & maskW(bitsOf(t)))); return;
      case Instruction::Add: out.push_back(C((one(0) + one(1)) & maskW(bitsOf(t)))); return;
      case Instruction::Sub: out.push_back(C((one(0) - one(1)) & maskW(bitsOf(t)))); return;
      case Instruction::ICmp: {
        uint64_t a = one(0), b = one(1);
        out.push_back(C(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b));
        return;
      }
      default: break;
    }
  }
  std::string s;
  raw_string_ostream os(s);
  c->print(os);
  throw Bad{"constant: " + os.str().substr(0, 100)};
}
static void storeConst(const Constant *c, uint64_t a) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { memset((void *)a, 0, DL->getTypeAllocSize(t)); return; }
  if (isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues();
    memcpy((void *)a, r.data(), r.size());
    return;
  }
  if (auto *ca = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(ca->getType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) storeConst(ca->getOperand(i), a + sl->getElementOffset(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    Type *et = ca->getOperand(0)->getType();
    uint64_t sz = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) storeConst(ca->getOperand(i), a + i * sz);
    return;
  }
  std::vector<Val> v;
  evalConst(c, v);
  if (t->isX86_FP80Ty()) {
    long double l = D(v[0].v);
    memcpy((void *)a, &l, 10);
    return;
  }
  memcpy((void *)a, &v[0].v, DL->getTypeStoreSize(t));
}
static std::vector<const GlobalVariable *> pendingInit;
static uint64_t globalAddr(const GlobalVariable *g) {
  auto it = gAddr.find(g);
  if (it != gAddr.end()) return it->second;
  std::string n = g->getName().str();
  uint64_t a = 0;
  // data shared with the native C++ runtime lives there; anything of the code under test lives in the arena
  bool weak = g->isDeclaration() || g->hasLinkOnceLinkage() || g->hasWeakLinkage() || g->hasAvailableExternallyLinkage();
  if (weak) {
    bool ours = false;
    if (!g->isDeclaration() && (n.compare(0, 4, "_ZTV") == 0 || n.compare(0, 4, "_ZTT") == 0) && n.compare(0, 6, "_ZTVNS") != 0 && n.compare(0, 6, "_ZTVSt") != 0) ours = true;
    if (!ours) a = (uint64_t)nativeSym(n);
    if (!a && g->isDeclaration()) {
      if (g->hasExternalWeakLinkage() || n == "__dso_handle") {
        gAddr[g] = 0;
        return 0;
      }
      throw Bad{"unresolved global " + n};
    }
  }
  if (!a) {
    size_t sz = DL->getTypeAllocSize(g->getValueType());
    a = (uint64_t)arenaAlloc(sz ? sz : 1, std::max<uint64_t>(16, g->getAlign() ? g->getAlign()->value() : 16), 4);
    memset((void *)a, 0, sz);
    gAddr[g] = a;
    if (g->hasInitializer()) storeConst(g->getInitializer(), a);
    return a;
  }
  gAddr[g] = a;
  return a;
}
// ------------------------------------------------------------------ native bridge
static ffi_type *ffiOf(Type *t) {
  if (t->isVoidTy()) return &ffi_type_void;
  if (t->isPointerTy()) return &ffi_type_pointer;
  if (t->isDoubleTy()) return &ffi_type_double;
  if (t->isFloatTy()) return &ffi_type_float;
  if (t->isX86_FP80Ty()) return &ffi_type_longdouble;
  if (t->isIntegerTy()) {
    unsigned w = t->getIntegerBitWidth();
    if (w <= 8) return &ffi_type_uint8;
    if (w <= 16) return &ffi_type_uint16;
    if (w <= 32) return &ffi_type_uint32;
    if (w <= 64) return &ffi_type_uint64;
  }
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *r = new ffi_type;
    r->size = r->alignment = 0;
    r->type = FFI_TYPE_STRUCT;
    r->elements = new ffi_type *[s->getNumElements() + 1];
    for (unsigned i = 0; i < s->getNumElements(); ++i) r->elements[i] = ffiOf(s->getElementType(i));
    r->elements[s->getNumElements()] = nullptr;
    return r;
  }
  throw Bad{"type not supported in a native call"};
}
static void closureEntry(ffi_cif *cif, void *ret, void **args, void *user) {
  Function *F = (Function *)user;
  FnInfo *fi = fnFor(F);
  std::vector<Val> av;
  unsigned i = 0;
  for (auto &a : F->args()) {
    Type *t = a.getType();
    uint64_t v = 0;
    memcpy(&v, args[i], t->isPointerTy() ? 8 : DL->getTypeStoreSize(t));
    av.push_back(C(v & maskW(bitsOf(t))));
    ++i;
  }
  Val r[8];
  execFn(fi, av.data(), av.size(), r);
  Type *rt = F->getReturnType();
  if (rt->isVoidTy()) return;
  if (slotsOf(rt) != 1) pathError("callback returning an aggregate");
  uint64_t x = rt->isIntegerTy() || rt->isPointerTy() ? concretize(r[0], bitsOf(rt)) : r[0].v;
  if (r[0].e && !rt->isIntegerTy()) pathError("callback returning a symbol");
  if (rt->isIntegerTy()) *(ffi_arg *)ret = x;
  else memcpy(ret, &x, 8);
}
uint64_t fnAddr(Function *F) {
  auto it = fnAddrs.find(F);
  if (it != fnAddrs.end()) return it->second;
  std::string n = F->getName().str();
  uint64_t a = 0;
  bool repoOwned = !F->isDeclaration() && F->getSubprogram() && F->getSubprogram()->getFilename().contains("/repo/");
  if (!repoOwned && !F->hasLocalLinkage()) a = (uint64_t)nativeSym(n);
  if (a) addrFn[a] = F;
  if (!a && F->isDeclaration()) {
    // address of an unknown external: a unique trap address
    static uint64_t next = 0x7ff000000000ull;
    a = next;
    next += 16;
    addrFn[a] = F;
  }
  if (!a) {
    if (F->isVarArg()) {
      static uint64_t next = 0x7fe000000000ull;
      a = next;
      next += 16;
    } else {
      try {
        auto *cif = new ffi_cif;
        auto **ats = new ffi_type *[F->arg_size() + 1];
        unsigned i = 0;
        for (auto &x : F->args()) ats[i++] = ffiOf(x.getType());
        ffi_type *rt = ffiOf(F->getReturnType());
        ffi_prep_cif(cif, FFI_DEFAULT_ABI, F->arg_size(), rt, ats);
        void *code = nullptr;
        ffi_closure *cl = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &code);
        ffi_prep_closure_loc(cl, cif, closureEntry, F, code);
        a = (uint64_t)code;
      } catch (Bad &) {
        static uint64_t next = 0x7fd000000000ull;
        a = next;
        next += 16;
      }
    }
    addrFn[a] = F;
  }
  fnAddrs[F] = a;
  return a;
}
static double nativeStart;
static void callNative(CallInfo *ci, void *fn, Val *args, Val *ret) {
  const CallBase *cb = ci->cb;
  if (specDepth) throw SpecFail();
  if (!ci->prepared) {
    ci->prepared = true;
    for (unsigned i = 0; i < cb->arg_size(); ++i) ci->ats.push_back(ffiOf(cb->getArgOperand(i)->getType()));
    ci->rt = ffiOf(cb->getType());
    FunctionType *ft = cb->getFunctionType();
    if (ft->isVarArg()) ffi_prep_cif_var(&ci->cif, FFI_DEFAULT_ABI, ft->getNumParams(), cb->arg_size(), ci->rt, ci->ats.data());
    else ffi_prep_cif(&ci->cif, FFI_DEFAULT_ABI, cb->arg_size(), ci->rt, ci->ats.data());
  }
  unsigned n = cb->arg_size();
  uint64_t vals[64];
  long double lds[8];
  int nl = 0;
  void *ptrs[64];
  if (n > 60) pathError("too many native arguments");
  for (unsigned i = 0; i < n; ++i) {
    Type *t = cb->getArgOperand(i)->getType();
    if (args[i].e) {
      if (isRealKind(args[i].e) || args[i].e->k == E_FP) pathError("real-valued symbol passed to native " + (ci->callee ? ci->callee->getName().str() : std::string("?")));
      vals[i] = concretize(args[i], bitsOf(t));
    } else vals[i] = args[i].v;
    if (t->isX86_FP80Ty()) {
      lds[nl] = D(vals[i]);
      ptrs[i] = &lds[nl++];
    } else ptrs[i] = &vals[i];
    if (cb->paramHasAttr(i, Attribute::ByVal)) pathError("byval argument to native function");
  }
  alignas(16) unsigned char rb[256];
  memset(rb, 0, sizeof rb);
  bool threw = false;
  std::string what;
  try {
    ffi_call(&ci->cif, FFI_FN(fn), rb, ptrs);
  } catch (SpecFail &) {
    throw;
  } catch (std::exception &e) {
    threw = true;
    what = e.what();
  } catch (...) {
    threw = true;
  }
  if (threw) violation("exception", "uncaught exception (" + what + ") in " + repoFnName());
  Type *rt = cb->getType();
  if (rt->isVoidTy()) return;
  std::vector<std::pair<Type *, uint64_t>> sc;
  scalarsOf(rt, 0, sc);
  for (size_t i = 0; i < sc.size(); ++i) {
    Type *t = sc[i].first;
    if (t->isX86_FP80Ty()) {
      long double l;
      memcpy(&l, rb + sc[i].second, 10);
      ret[i] = CD((double)l);
    } else {
      uint64_t v = 0;
      memcpy(&v, rb + sc[i].second, DL->getTypeStoreSize(t));
      ret[i] = C(v & maskW(bitsOf(t)));
      if (magicOn && t->isDoubleTy()) magicLookup(v, &ret[i]);
      if (intMagicOn && (t->isIntegerTy(32) || t->isIntegerTy(64))) intMagicLookup(v, bitsOf(t), &ret[i]);
    }
  }
}
// ------------------------------------------------------------------ decoding
struct Decoder {
  FnInfo *f;
  std::unordered_map<const Value *, int32_t> slot;
  std::unordered_map<const Constant *, int32_t> cslot;
  int32_t val(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c);
      if (it != cslot.end()) return it->second;
      int32_t s = ~(int32_t)f->consts.size();
      std::vector<Val> o;
      evalConst(c, o);
      for (auto &x : o) f->consts.push_back(x);
      // slots of an aggregate constant go downwards: s, s-1, ...
      cslot[c] = s;
      return s;
    }
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    int32_t s = f->nregs;
    f->nregs += std::max(1, slotsOf(v->getType()));
    slot[v] = s;
    return s;
  }
  static int32_t nth(int32_t s, int i) { return s >= 0 ? s + i : s - i; }
  int32_t edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.blk = f->blkIdx[to];
    e.pc = 0;
    for (auto &p : to->phis()) {
      int n = slotsOf(p.getType());
      int32_t s = val(p.getIncomingValueForBlock(from)), d = val(&p);
      for (int i = 0; i < n; ++i) e.mv.push_back({d + i, nth(s, i)});
    }
    f->edges.push_back(e);
    return f->edges.size() - 1;
  }
  Op &emit(OpK k, const Instruction *I) {
    Op o;
    memset(&o, 0, sizeof o);
    o.k = k;
    o.I = I;
    f->ops.push_back(o);
    return f->ops.back();
  }
  void bad(const Instruction *I, const std::string &m) {
    Op &o = emit(O_BAD, I);
    o.imm = (uint64_t)strdup(m.c_str());
  }
  void inst(const Instruction *I) {
    if (isa<DbgInfoIntrinsic>(I)) return;
    Type *t = I->getType();
    if (auto *b = dyn_cast<BinaryOperator>(I)) {
      Type *st = t->getScalarType();
      int n = slotsOf(t);
      int32_t a = val(b->getOperand(0)), c = val(b->getOperand(1)), d = val(I);
      if (st->isIntegerTy() && bitsOf(st) > 64) return bad(I, "wide integer arithmetic");
      for (int i = 0; i < n; ++i) {
        Op &o = emit(st->isIntegerTy() ? O_BIN : st->isFloatTy() ? O_FBIN32 : O_FBIN, I);
        o.sub = b->getOpcode();
        o.w = bitsOf(st);
        o.a = nth(a, i), o.b = nth(c, i), o.d = d + i;
      }
      return;
    }
    switch (I->getOpcode()) {
      case Instruction::FNeg: {
        if (t->isVectorTy()) return bad(I, "vector fneg");
        int32_t a = val(I->getOperand(0)), d = val(I);
        Op &o = emit(O_FNEG, I);
        o.a = a, o.d = d, o.w = bitsOf(t);
        return;
      }
      case Instruction::ICmp: case Instruction::FCmp: {
        auto *c = cast<CmpInst>(I);
        int n = slotsOf(t);
        int32_t a = val(c->getOperand(0)), b = val(c->getOperand(1)), d = val(I);
        Type *ot = c->getOperand(0)->getType()->getScalarType();
        if (ot->isIntegerTy() && bitsOf(ot) > 64) return bad(I, "wide integer comparison");
        for (int i = 0; i < n; ++i) {
          Op &o = emit(I->getOpcode() == Instruction::ICmp ? O_ICMP : O_FCMP, I);
          o.sub = c->getPredicate();
          o.w = bitsOf(ot);
          o.a = nth(a, i), o.b = nth(b, i), o.d = d + i;
        }
        return;
      }
      case Instruction::Select: {
        int n = slotsOf(t);
        auto *s = cast<SelectInst>(I);
        int32_t c = val(s->getCondition()), a = val(s->getTrueValue()), b = val(s->getFalseValue()), d = val(I);
        bool vc = s->getCondition()->getType()->isVectorTy();
        std::vector<std::pair<Type *, uint64_t>> sc;
        scalarsOf(t, 0, sc);
        for (int i = 0; i < n; ++i) {
          Op &o = emit(O_SELECT, I);
          o.c = vc ? nth(c, i) : c;
          o.a = nth(a, i), o.b = nth(b, i), o.d = d + i;
          o.w = sc[i].first->isPointerTy() ? 0 : bitsOf(sc[i].first);
        }
        return;
      }
      case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(I);
        if (t->isVectorTy()) return bad(I, "vector gep");
        int32_t base = val(g->getPointerOperand());
        int64_t off = 0;
        std::vector<GepTerm> ts;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) {
            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          } else {
            int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz;
            else ts.push_back({val(ix), (uint16_t)bitsOf(ix->getType()), sz});
          }
        }
        int32_t d = val(I);
        Op &o = emit(O_GEP, I);
        o.a = base, o.d = d, o.imm = off;
        o.b = -1;
        if (!ts.empty()) {
          o.b = f->geps.size();
          f->geps.push_back(ts);
        }
        return;
      }
      case Instruction::Load: {
        auto *l = cast<LoadInst>(I);
        int32_t p = val(l->getPointerOperand()), d = val(I);
        std::vector<std::pair<Type *, uint64_t>> sc;
        scalarsOf(t, 0, sc);
        for (size_t i = 0; i < sc.size(); ++i) {
          Type *x = sc[i].first;
          if (x->isIntegerTy() && bitsOf(x) > 64) return bad(I, "wide load");
          Op &o = emit(x->isX86_FP80Ty() ? O_LOADX : O_LOAD, I);
          o.a = p, o.d = d + i, o.imm = sc[i].second;
          o.w = DL->getTypeStoreSize(x), o.w2 = bitsOf(x);
          o.sub = x->isDoubleTy();
        }
        return;
      }
      case Instruction::Store: {
        auto *s = cast<StoreInst>(I);
        int32_t p = val(s->getPointerOperand()), v = val(s->getValueOperand());
        std::vector<std::pair<Type *, uint64_t>> sc;
        scalarsOf(s->getValueOperand()->getType(), 0, sc);
        for (size_t i = 0; i < sc.size(); ++i) {
          Type *x = sc[i].first;
          if (x->isIntegerTy() && bitsOf(x) > 64) return bad(I, "wide store");
          Op &o = emit(x->isX86_FP80Ty() ? O_STOREX : O_STORE, I);
          o.a = p, o.b = nth(v, i), o.imm = sc[i].second;
          o.w = DL->getTypeStoreSize(x), o.w2 = bitsOf(x);
        }
        return;
      }
      case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(I);
        int32_t n = val(a->getArraySize()), d = val(I);
        Op &o = emit(O_ALLOCA, I);
        o.a = n, o.d = d, o.imm = DL->getTypeAllocSize(a->getAllocatedType());
        o.w = a->getAlign().value();
        return;
      }
      case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        const BasicBlock *bb = I->getParent();
        if (b->isUnconditional()) {
          int32_t e = edge(bb, b->getSuccessor(0));
          emit(O_BR, I).a = e;
        } else {
          int32_t c = val(b->getCondition());
          int32_t e0 = edge(bb, b->getSuccessor(0)), e1 = edge(bb, b->getSuccessor(1));
          Op &o = emit(O_CBR, I);
          o.c = c, o.a = e0, o.b = e1;
          o.imm = f->blkIdx[bb];
        }
        return;
      }
      case Instruction::Switch: {
        auto *s = cast<SwitchInst>(I);
        int32_t c = val(s->getCondition());
        std::vector<std::pair<uint64_t, int32_t>> cs;
        for (auto &k : s->cases()) cs.push_back({k.getCaseValue()->getZExtValue(), edge(I->getParent(), k.getCaseSuccessor())});
        int32_t de = edge(I->getParent(), s->getDefaultDest());
        f->switches.push_back({s, cs});
        Op &o = emit(O_SWITCH, I);
        o.c = c, o.a = de, o.b = f->switches.size() - 1, o.w = bitsOf(s->getCondition()->getType());
        return;
      }
      case Instruction::Ret: {
        auto *r = cast<ReturnInst>(I);
        int n = 0;
        int32_t v = 0;
        if (r->getReturnValue()) v = val(r->getReturnValue()), n = slotsOf(r->getReturnValue()->getType());
        Op &o = emit(O_RET, I);
        o.a = v, o.b = n;
        return;
      }
      case Instruction::Unreachable: emit(O_UNREACH, I); return;
      case Instruction::ExtractValue: {
        auto *e = cast<ExtractValueInst>(I);
        int off = 0;
        Type *x = e->getAggregateOperand()->getType();
        for (unsigned ix : e->indices()) {
          if (auto *s = dyn_cast<StructType>(x)) {
            for (unsigned k = 0; k < ix; ++k) off += slotsOf(s->getElementType(k));
            x = s->getElementType(ix);
          } else {
            x = cast<ArrayType>(x)->getElementType();
            off += ix * slotsOf(x);
          }
        }
        int32_t s = val(e->getAggregateOperand()), d = val(I);
        for (int i = 0; i < slotsOf(t); ++i) {
          Op &o = emit(O_MOVE, I);
          o.a = nth(s, off + i), o.d = d + i;
        }
        return;
      }
      case Instruction::InsertValue: {
        auto *e = cast<InsertValueInst>(I);
        int off = 0;
        Type *x = t;
        for (unsigned ix : e->indices()) {
          if (auto *s = dyn_cast<StructType>(x)) {
            for (unsigned k = 0; k < ix; ++k) off += slotsOf(s->getElementType(k));
            x = s->getElementType(ix);
          } else {
            x = cast<ArrayType>(x)->getElementType();
            off += ix * slotsOf(x);
          }
        }
        int n = slotsOf(x);
        int32_t s = val(e->getAggregateOperand()), v = val(e->getInsertedValueOperand()), d = val(I);
        for (int i = 0; i < slotsOf(t); ++i) {
          Op &o = emit(O_MOVE, I);
          o.a = i >= off && i < off + n ? nth(v, i - off) : nth(s, i);
          o.d = d + i;
        }
        return;
      }
      case Instruction::ExtractElement: case Instruction::InsertElement: {
        auto *ix = dyn_cast<ConstantInt>(I->getOperand(I->getOpcode() == Instruction::ExtractElement ? 1 : 2));
        if (!ix) return bad(I, "variable vector index");
        int k = ix->getZExtValue();
        int32_t s = val(I->getOperand(0)), d = val(I);
        if (I->getOpcode() == Instruction::ExtractElement) {
          Op &o = emit(O_MOVE, I);
          o.a = nth(s, k), o.d = d;
        } else {
          int32_t v = val(I->getOperand(1));
          for (int i = 0; i < slotsOf(t); ++i) {
            Op &o = emit(O_MOVE, I);
            o.a = i == k ? v : nth(s, i), o.d = d + i;
          }
        }
        return;
      }
      case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(I);
        int32_t a = val(sv->getOperand(0)), b = val(sv->getOperand(1)), d = val(I);
        int n = slotsOf(sv->getOperand(0)->getType());
        auto mask = sv->getShuffleMask();
        for (size_t i = 0; i < mask.size(); ++i) {
          int m = mask[i] < 0 ? 0 : mask[i];
          Op &o = emit(O_MOVE, I);
          o.a = m < n ? nth(a, m) : nth(b, m - n), o.d = d + i;
        }
        return;
      }
      case Instruction::Freeze: {
        int32_t a = val(I->getOperand(0)), d = val(I);
        for (int i = 0; i < slotsOf(t); ++i) {
          Op &o = emit(O_MOVE, I);
          o.a = nth(a, i), o.d = d + i;
        }
        return;
      }
      case Instruction::Fence: return;
      case Instruction::AtomicRMW: {
        auto *r = cast<AtomicRMWInst>(I);
        int32_t p = val(r->getPointerOperand()), v = val(r->getValOperand()), d = val(I);
        Op &o = emit(O_RMW, I);
        o.a = p, o.b = v, o.d = d, o.sub = r->getOperation(), o.w = DL->getTypeStoreSize(t);
        return;
      }
      case Instruction::AtomicCmpXchg: {
        auto *r = cast<AtomicCmpXchgInst>(I);
        int32_t p = val(r->getPointerOperand()), a = val(r->getCompareOperand()), b = val(r->getNewValOperand()), d = val(I);
        Op &o = emit(O_CMPX, I);
        o.a = p, o.b = a, o.c = b, o.d = d, o.w = DL->getTypeStoreSize(r->getCompareOperand()->getType());
        return;
      }
      case Instruction::LandingPad: case Instruction::Resume: return bad(I, "exception landing pad reached");
      case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I));
      default: break;
    }
    if (auto *c = dyn_cast<CastInst>(I)) {
      int n = slotsOf(t);
      Type *ft = c->getSrcTy()->getScalarType(), *tt = t->getScalarType();
      int32_t a = val(c->getOperand(0)), d = val(I);
      if (slotsOf(c->getSrcTy()) != n) return bad(I, "vector bitcast");
      if ((ft->isIntegerTy() && bitsOf(ft) > 64) || (tt->isIntegerTy() && bitsOf(tt) > 64)) return bad(I, "wide cast");
      bool fp = ft->isFloatingPointTy() != tt->isFloatingPointTy() ? I->getOpcode() != Instruction::BitCast : ft->isFloatingPointTy() && I->getOpcode() != Instruction::BitCast;
      for (int i = 0; i < n; ++i) {
        Op &o = emit(fp ? O_FCAST : O_CAST, I);
        o.sub = I->getOpcode();
        o.w = bitsOf(ft), o.w2 = bitsOf(tt);
        o.a = nth(a, i), o.d = d + i;
      }
      return;
    }
    bad(I, std::string("instruction ") + I->getOpcodeName());
  }
  void call(const CallBase *cb) {
    if (cb->isInlineAsm()) {
      // compiler barriers carry no code
      auto *ia = cast<InlineAsm>(cb->getCalledOperand());
      if (ia->getAsmString().empty()) return;
      return bad(cb, "inline assembly");
    }
    Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (!F)
      if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
    if (F && F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::var_annotation:
          return;
        default: break;
      }
    }
    auto *ci = new CallInfo;
    ci->cb = cb;
    ci->callee = F;
    if (F && F->isIntrinsic()) ci->iid = F->getIntrinsicID();
    else if (!F) ci->calleeOp = val(cb->getCalledOperand());
    for (unsigned i = 0; i < cb->arg_size(); ++i) {
      Value *v = cb->getArgOperand(i);
      if (v->getType()->isMetadataTy()) continue;
      int n = slotsOf(v->getType());
      int32_t s = val(v);
      for (int k = 0; k < n; ++k) {
        ci->args.push_back(nth(s, k));
        ci->argBytes.push_back(0);
      }
      if (cb->paramHasAttr(i, Attribute::ByVal)) ci->argBytes.back() = DL->getTypeAllocSize(cb->getParamByValType(i));
    }
    ci->nret = slotsOf(cb->getType());
    int32_t d = ci->nret ? val(cb) : 0;
    if (auto *inv = dyn_cast<InvokeInst>(cb)) ci->edge = edge(cb->getParent(), inv->getNormalDest());
    f->calls.push_back(ci);
    Op &o = emit(O_CALL, cb);
    o.a = f->calls.size() - 1;
    o.d = d;
  }
  void run() {
    Function *F = f->F;
    for (auto &a : F->args()) {
      int32_t s = f->nregs;
      f->nregs += slotsOf(a.getType());
      slot[&a] = s;
    }
    f->nargs = f->nregs;
    uint32_t k = 0;
    for (auto &b : *F) f->blkIdx[&b] = k++;
    f->blkPc.resize(k);
    for (auto &b : *F) {
      f->blkPc[f->blkIdx[&b]] = f->ops.size();
      for (auto &I : b) {
        if (isa<PHINode>(I)) continue;
        try {
          inst(&I);
        } catch (Bad &x) {
          bad(&I, x.m);
        }
      }
    }
    for (auto &e : f->edges) e.pc = f->blkPc[e.blk];
  }
};
FnInfo *fnFor(Function *F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  auto *f = new FnInfo;
  f->F = F;
  fns[F] = f;
  return f;
}
static std::unordered_map<std::string, Function *> overrides;
static void decode(FnInfo *f) {
  f->decoded = true;
  Decoder d;
  d.f = f;
  d.run();
}
static void computePD(FnInfo *f) {
  f->pdDone = true;
  PostDominatorTree pdt(*f->F);
  f->ipdom.assign(f->blkPc.size(), -1);
  for (auto &b : *f->F) {
    auto *n = pdt.getNode(&b);
    if (!n || !n->getIDom() || !n->getIDom()->getBlock()) continue;
    f->ipdom[f->blkIdx[&b]] = f->blkIdx[n->getIDom()->getBlock()];
  }
}
// ------------------------------------------------------------------ execution
static uint64_t sx(uint64_t v, unsigned w) { return w >= 64 ? v : (uint64_t)((int64_t)(v << (64 - w)) >> (64 - w)); }
static uint64_t x86fptosi(double d) {
  if (d >= -9223372036854775808.0 && d < 9223372036854775808.0) return (uint64_t)(int64_t)d;
  return 1ull << 63;
}
static uint64_t x86fptoui(double d) {
  if (d < 9223372036854775808.0 || d != d) return x86fptosi(d);
  return x86fptosi(d - 9223372036854775808.0) ^ (1ull << 63);
}
struct Stop { int blk; bool hit; std::vector<Val> out; };
static long specBudget;
static void loop(FnInfo *f, Val *R, uint32_t pc, Val *ret, Stop *stop, const Val *va, int nva);
bool intrinsic(CallInfo *ci, unsigned iid, Val *a, int n, Val *ret, const Val *va, int nva);

static bool trySpec(FnInfo *f, Val *R, const Op &o, const Val *va, int nva, std::vector<Val> *res, int *stopBlk) {
  if (specDepth >= 3) return false;
  if (!f->pdDone) computePD(f);
  int target = f->ipdom[o.imm];
  struct Run { std::vector<Val> out; std::map<uint64_t, Val> writes; std::vector<WLog> log; };
  Run runs[2];
  std::vector<Val> saved(R, R + f->nregs);
  uint64_t mark = stackMark();
  size_t depth = cstack.size();
  long budget0 = specBudget;
  if (specDepth == 0) specBudget = 4000;
  std::vector<WLog> *outer = wlog;
  bool ok = true;
  std::vector<uint64_t> addrs;
  for (int side = 0; side < 2 && ok; ++side) {
    std::vector<WLog> log;
    wlog = &log;
    ++specDepth;
    Stop st;
    st.blk = target;
    st.hit = false;
    const Edge &e = f->edges[side ? o.b : o.a];
    Val rv[16];
    try {
      if ((int)e.blk == target) {
        st.hit = true;
        for (auto &m : e.mv) st.out.push_back(m.s >= 0 ? R[m.s] : f->consts[~m.s]);
      } else {
        std::vector<Val> t;
        for (auto &m : e.mv) t.push_back(m.s >= 0 ? R[m.s] : f->consts[~m.s]);
        for (size_t i = 0; i < t.size(); ++i) R[e.mv[i].d] = t[i];
        for (auto &x : rv) x = C(0);
        loop(f, R, e.pc, rv, &st, va, nva);
        if (!st.hit) {
          if (target >= 0) ok = false;  // returned before the join
          int n = slotsOf(f->F->getReturnType());
          for (int i = 0; i < n; ++i) st.out.push_back(rv[i]);
        }
      }
    } catch (SpecFail &) {
      ok = false;
    }
    --specDepth;
    cstack.resize(depth);
    wlog = outer;
    // collect and undo
    if (ok)
      for (auto &w : log)
        if (!(w.a >= mark && w.a < STK + (4ull << 30) && w.a >= STK)) runs[side].writes[w.a] = loadMem(w.a, 8);
    if (ok && side == 1) {
      // compare before undoing: keep the second run's memory if both agree
      runs[1].out = st.out;
      bool same = runs[0].out.size() == st.out.size();
      for (size_t i = 0; same && i < st.out.size(); ++i) same = sameVal(runs[0].out[i], st.out[i]);
      if (same) {
        same = runs[0].writes.size() == runs[1].writes.size();
        auto a = runs[0].writes.begin();
        auto b = runs[1].writes.begin();
        for (; same && a != runs[0].writes.end(); ++a, ++b) same = a->first == b->first && sameVal(a->second, b->second);
      }
      if (!same) ok = false;
      if (ok) {
        if (outer) outer->insert(outer->end(), log.begin(), log.end());
        stackRelease(mark);
        *res = st.out;
        *stopBlk = target;
        __sync_fetch_and_add(&sh->merged, 1);
        if (specDepth == 0) specBudget = budget0;
        return true;
      }
    }
    for (auto it = log.rbegin(); it != log.rend(); ++it) *(uint64_t *)it->a = it->old;
    stackRelease(mark);
    std::copy(saved.begin(), saved.end(), R);
    if (ok) runs[side].out = st.out;
  }
  std::copy(saved.begin(), saved.end(), R);
  if (specDepth == 0) specBudget = budget0;
  return false;
}
static void prepCall(CallInfo *ci) {
  ci->ready = true;
  Function *F = ci->callee;
  if (!F || ci->iid) return;
  std::string n = F->getName().str();
  auto ov = overrides.find(n);
  if (ov != overrides.end()) {
    ci->fi = fnFor(ov->second);
    return;
  }
  ci->h = findHandler(n);
  if (ci->h) return;
  if (!F->isDeclaration()) {
    ci->fi = fnFor(F);
    return;
  }
  ci->native = nativeSym(n);
}
static void doCall(FnInfo *f, Val *R, CallInfo *ci, Val *ret, const Val *va, int nva) {
  if (!ci->ready) prepCall(ci);
  Val av[64];
  int n = ci->args.size();
  if (n > 64) pathError("too many arguments");
  for (int i = 0; i < n; ++i) {
    int32_t s = ci->args[i];
    av[i] = s >= 0 ? R[s] : f->consts[~s];
  }
  FnInfo *fi = ci->fi;
  if (fi) {
  direct:
    if (ci->argBytes.size())
      for (int i = 0; i < n; ++i)
        if (ci->argBytes[i]) {
          uint64_t p = stackAlloc(ci->argBytes[i], 16);
          copyMem(p, av[i].v, ci->argBytes[i]);
          av[i] = C(p);
        }
    int fixed = fi->F->isVarArg() ? (int)fi->F->arg_size() : n;
    execFn(fi, av, fixed, ret, av + fixed, n - fixed);
    return;
  }
  if (ci->iid) {
    if (intrinsic(ci, ci->iid, av, n, ret, va, nva)) return;
    pathError("intrinsic " + ci->callee->getName().str());
  }
  if (ci->h) {
    if (ci->h(ci->cb, av, n, ret)) return;
    // handler declined: the real thing
    if (ci->callee && !ci->callee->isDeclaration()) {
      fi = fnFor(ci->callee);
      goto direct;
    }
    if (!ci->native && ci->callee) ci->native = nativeSym(ci->callee->getName().str());
  }
  if (ci->native) {
    callNative(ci, ci->native, av, ret);
    return;
  }
  if (!ci->callee) {
    Val cv = ci->calleeOp >= 0 ? R[ci->calleeOp] : f->consts[~ci->calleeOp];
    uint64_t a = concretize(cv, 64);
    if (a < 65536) violation("memory", "memory error: call through a null pointer in " + repoFnName());
    auto it = addrFn.find(a);
    if (it != addrFn.end()) {
      Function *F = it->second;
      std::string nm = F->getName().str();
      auto ov = overrides.find(nm);
      if (ov != overrides.end()) { fi = fnFor(ov->second); goto direct; }
      if (Handler h = findHandler(nm))
        if (h(ci->cb, av, n, ret)) return;
      if (!F->isDeclaration()) {
        fi = fnFor(F);
        goto direct;
      }
    }
    if (inArena(a) || a >= 0x7fd000000000ull && a < 0x7ff100000000ull) {
      Dl_info di;
      if (!dladdr((void *)a, &di)) violation("memory", "memory error: call through a bad pointer in " + repoFnName());
    }
    callNative(ci, (void *)a, av, ret);
    return;
  }
  pathError("no definition for " + (ci->callee ? ci->callee->getName().str() : std::string("?")));
}
void callAddr(uint64_t a, Val *args, int n, Val *ret) {
  auto it = addrFn.find(a);
  if (it == addrFn.end() || it->second->isDeclaration()) pathError("callAddr");
  execFn(fnFor(it->second), args, n, ret);
}
static std::string fnListPath() { return cexDir + "/functions.txt"; }

void execFn(FnInfo *f, const Val *args, int nargs, Val *ret, const Val *va, int nva) {
  if (!f->decoded) decode(f);
  if (f->repo && f->idx >= 0 && f->idx < (1 << 16)) sh->fnSeen[f->idx] = 1;
  if (f->F->isDeclaration()) pathError("call of undefined function " + f->F->getName().str());
  uint64_t mark = stackMark();
  Val *R = (Val *)alloca(sizeof(Val) * (f->nregs + 1));
  memset((void *)R, 0, sizeof(Val) * (f->nregs + 1));
  for (int i = 0; i < f->nargs && i < nargs; ++i) R[i] = args[i];
  cstack.push_back({f, nullptr});
  if (cstack.size() > 20000) violation("crash", "stack exhausted (unbounded recursion) in " + repoFnName());
  loop(f, R, 0, ret, nullptr, va, nva);
  cstack.pop_back();
  stackRelease(mark);
}
#define V(s) ((s) >= 0 ? R[s] : K[~(s)])
static void loop(FnInfo *f, Val *R, uint32_t pc, Val *ret, Stop *stop, const Val *va, int nva) {
  const Val *K = f->consts.data();
  const Op *ops = f->ops.data();
  size_t me = cstack.size() - 1;
  Val tmp[64];
  auto take = [&](int32_t ei) -> bool {
    const Edge &e = f->edges[ei];
    size_t n = e.mv.size();
    if (stop && (int)e.blk == stop->blk) {
      stop->hit = true;
      for (auto &m : e.mv) stop->out.push_back(V(m.s));
      return true;
    }
    if (n == 1) {
      R[e.mv[0].d] = V(e.mv[0].s);
    } else if (n) {
      if (n > 64) pathError("too many phis");
      for (size_t i = 0; i < n; ++i) tmp[i] = V(e.mv[i].s);
      for (size_t i = 0; i < n; ++i) R[e.mv[i].d] = tmp[i];
    }
    pc = e.pc;
    return false;
  };
  for (;;) {
    const Op &o = ops[pc++];
    ++icount;
    cstack[me].op = &o;
    if (specDepth && --specBudget < 0) throw SpecFail();
    switch (o.k) {
      case O_BIN: {
        Val a = V(o.a), b = V(o.b);
        if (a.e || b.e) {
          if (o.sub == Instruction::UDiv || o.sub == Instruction::SDiv || o.sub == Instruction::URem || o.sub == Instruction::SRem) {
            if (b.e) {
              if (decide(bvCmp(CmpInst::ICMP_EQ, b, C(0), o.w))) violation("crash", "division by zero in " + repoFnName());
            } else if (b.v == 0) violation("crash", "division by zero in " + repoFnName());
          }
          R[o.d] = bvBin(o.sub, a, b, o.w);
          break;
        }
        uint64_t x = a.v, y = b.v, r;
        unsigned w = o.w;
        switch (o.sub) {
          case Instruction::Add: r = x + y; break;
          case Instruction::Sub: r = x - y; break;
          case Instruction::Mul: r = x * y; break;
          case Instruction::And: r = x & y; break;
          case Instruction::Or: r = x | y; break;
          case Instruction::Xor: r = x ^ y; break;
          case Instruction::Shl: r = y >= w ? 0 : x << y; break;
          case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
          case Instruction::AShr: r = sx(x, w); r = (uint64_t)((int64_t)r >> (y >= w ? w - 1 : y)); break;
          case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            if (y == 0) violation("crash", "division by zero in " + repoFnName());
            if (o.sub == Instruction::UDiv) r = x / y;
            else if (o.sub == Instruction::URem) r = x % y;
            else {
              int64_t p = (int64_t)sx(x, w), q = (int64_t)sx(y, w);
              if (q == -1) r = o.sub == Instruction::SDiv ? (uint64_t)-(uint64_t)p : 0;
              else r = o.sub == Instruction::SDiv ? p / q : p % q;
            }
            break;
          }
          default: pathError("binop");
        }
        R[o.d] = C(r & maskW(w));
        break;
      }
      case O_FBIN: {
        Val a = V(o.a), b = V(o.b);
        if (a.e || b.e) {
          R[o.d] = fpBin(o.sub, a, b);
          break;
        }
        double x = D(a.v), y = D(b.v), r;
        switch (o.sub) {
          case Instruction::FAdd: r = x + y; break;
          case Instruction::FSub: r = x - y; break;
          case Instruction::FMul: r = x * y; break;
          case Instruction::FDiv: r = x / y; break;
          case Instruction::FRem: r = std::fmod(x, y); break;
          default: pathError("fbin");
        }
        R[o.d] = CD(r);
        break;
      }
      case O_FBIN32: {
        Val a = V(o.a), b = V(o.b);
        if (a.e || b.e) pathError("symbolic float");
        float x, y, r;
        memcpy(&x, &a.v, 4);
        memcpy(&y, &b.v, 4);
        switch (o.sub) {
          case Instruction::FAdd: r = x + y; break;
          case Instruction::FSub: r = x - y; break;
          case Instruction::FMul: r = x * y; break;
          case Instruction::FDiv: r = x / y; break;
          default: pathError("fbin32");
        }
        uint32_t u;
        memcpy(&u, &r, 4);
        R[o.d] = C(u);
        break;
      }
      case O_FNEG: {
        Val a = V(o.a);
        if (a.e) R[o.d] = fpNeg(a);
        else R[o.d] = C(o.w == 32 ? a.v ^ 0x80000000u : a.v ^ (1ull << 63));
        break;
      }
      case O_ICMP: {
        Val a = V(o.a), b = V(o.b);
        if (a.e || b.e) {
          R[o.d] = bvCmp(o.sub, a, b, o.w);
          break;
        }
        uint64_t x = a.v, y = b.v;
        int64_t p = (int64_t)sx(x, o.w), q = (int64_t)sx(y, o.w);
        bool r;
        switch (o.sub) {
          case CmpInst::ICMP_EQ: r = x == y; break;
          case CmpInst::ICMP_NE: r = x != y; break;
          case CmpInst::ICMP_ULT: r = x < y; break;
          case CmpInst::ICMP_ULE: r = x <= y; break;
          case CmpInst::ICMP_UGT: r = x > y; break;
          case CmpInst::ICMP_UGE: r = x >= y; break;
          case CmpInst::ICMP_SLT: r = p < q; break;
          case CmpInst::ICMP_SLE: r = p <= q; break;
          case CmpInst::ICMP_SGT: r = p > q; break;
          default: r = p >= q; break;
        }
        R[o.d] = C(r);
        break;
      }
      case O_FCMP: {
        Val a = V(o.a), b = V(o.b);
        if (a.e || b.e) {
          R[o.d] = fpCmp(o.sub, a, b);
          break;
        }
        double x, y;
        if (o.w == 32) {
          float p, q;
          memcpy(&p, &a.v, 4);
          memcpy(&q, &b.v, 4);
          x = p, y = q;
        } else x = D(a.v), y = D(b.v);
        bool un = std::isnan(x) || std::isnan(y), r;
        switch (o.sub) {
          case CmpInst::FCMP_OEQ: r = !un && x == y; break;
          case CmpInst::FCMP_OGT: r = !un && x > y; break;
          case CmpInst::FCMP_OGE: r = !un && x >= y; break;
          case CmpInst::FCMP_OLT: r = !un && x < y; break;
          case CmpInst::FCMP_OLE: r = !un && x <= y; break;
          case CmpInst::FCMP_ONE: r = !un && x != y; break;
          case CmpInst::FCMP_ORD: r = !un; break;
          case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = un || x == y; break;
          case CmpInst::FCMP_UGT: r = un || x > y; break;
          case CmpInst::FCMP_UGE: r = un || x >= y; break;
          case CmpInst::FCMP_ULT: r = un || x < y; break;
          case CmpInst::FCMP_ULE: r = un || x <= y; break;
          case CmpInst::FCMP_UNE: r = un || x != y; break;
          case CmpInst::FCMP_TRUE: r = true; break;
          default: r = false;
        }
        R[o.d] = C(r);
        break;
      }
      case O_CAST: {
        Val a = V(o.a);
        if (a.e) {
          R[o.d] = bvCast(o.sub, a, o.w, o.w2);
          break;
        }
        R[o.d] = C(o.sub == Instruction::SExt ? sx(a.v, o.w) & maskW(o.w2) : a.v & maskW(o.w2));
        break;
      }
      case O_FCAST: {
        Val a = V(o.a);
        if (a.e) {
          R[o.d] = fpCast(o.sub, a, o.w, o.w2);
          break;
        }
        double x;
        if (o.sub == Instruction::UIToFP) x = (double)a.v;
        else if (o.sub == Instruction::SIToFP) x = (double)(int64_t)sx(a.v, o.w);
        else if (o.w == 32) {
          float p;
          memcpy(&p, &a.v, 4);
          x = p;
        } else x = D(a.v);
        if (o.sub == Instruction::FPToUI) R[o.d] = C((o.w2 == 64 ? x86fptoui(x) : x86fptosi(x)) & maskW(o.w2));
        else if (o.sub == Instruction::FPToSI) R[o.d] = C(x86fptosi(x) & maskW(o.w2));
        else if (o.w2 == 32) {
          float p = (float)x;
          if (o.sub == Instruction::UIToFP) p = (float)a.v;
          if (o.sub == Instruction::SIToFP) p = (float)(int64_t)sx(a.v, o.w);
          uint32_t u;
          memcpy(&u, &p, 4);
          R[o.d] = C(u);
        } else R[o.d] = CD(x);
        break;
      }
      case O_SELECT: {
        Val c = V(o.c);
        if (c.e) R[o.d] = bvIte(c, V(o.a), V(o.b), o.w);
        else R[o.d] = c.v & 1 ? V(o.a) : V(o.b);
        break;
      }
      case O_GEP: {
        Val p = V(o.a);
        if (p.e) p = C(concretize(p, 64));
        uint64_t a = p.v + o.imm;
        if (o.b >= 0)
          for (auto &t : f->geps[o.b]) {
            Val i = V(t.idx);
            uint64_t x = i.e ? concretize(i, t.w) : i.v;
            a += sx(x, t.w) * (uint64_t)t.scale;
          }
        R[o.d] = C(a);
        break;
      }
      case O_LOAD: {
        Val p = V(o.a);
        uint64_t a = (p.e ? concretize(p, 64) : p.v) + o.imm;
        checkAccess(a, o.w, false);
        Val r = loadMem(a, o.w);
        if (r.e) {
          if (r.e->k == E_BV && o.w2 < o.w * 8) r = bvCast(Instruction::Trunc, r, o.w * 8, o.w2);
        } else {
          r.v &= maskW(o.w2);
          if (magicOn && o.sub) magicLookup(r.v, &r);
          if (intMagicOn && !o.sub && (o.w2 == 32 || o.w2 == 64)) intMagicLookup(r.v, o.w2, &r);
        }
        R[o.d] = r;
        break;
      }
      case O_STORE: {
        Val p = V(o.a);
        uint64_t a = (p.e ? concretize(p, 64) : p.v) + o.imm;
        checkAccess(a, o.w, true);
        storeMem(a, o.w, V(o.b));
        break;
      }
      case O_LOADX: {
        uint64_t a = V(o.a).v + o.imm;
        checkAccess(a, 10, false);
        long double l;
        memcpy(&l, (void *)a, 10);
        R[o.d] = CD((double)l);
        break;
      }
      case O_STOREX: {
        if (specDepth) throw SpecFail();
        uint64_t a = V(o.a).v + o.imm;
        checkAccess(a, 10, true);
        Val x = V(o.b);
        if (x.e) pathError("symbolic long double in memory");
        long double l = D(x.v);
        memcpy((void *)a, &l, 10);
        break;
      }
      case O_ALLOCA: {
        Val n = V(o.a);
        uint64_t k = n.e ? concretize(n, 64) : n.v;
        R[o.d] = C(stackAlloc(o.imm * k, o.w));
        break;
      }
      case O_MOVE: R[o.d] = V(o.a); break;
      case O_CALL: {
        CallInfo *ci = f->calls[o.a];
        if (ci->nret <= 1) {
          Val r = C(0);
          doCall(f, R, ci, &r, va, nva);
          if (ci->nret) R[o.d] = r;
        } else {
          std::vector<Val> r(ci->nret + 1, C(0));
          doCall(f, R, ci, r.data(), va, nva);
          for (int i = 0; i < ci->nret; ++i) R[o.d + i] = r[i];
        }
        if (ci->edge >= 0 && take(ci->edge)) return;
        break;
      }
      case O_BR:
        if (take(o.a)) return;
        break;
      case O_CBR: {
        Val c = V(o.c);
        bool side;
        int forced;
        if (!c.e) side = c.v & 1;
        else if (!mayBranch(c, &forced)) side = forced;
        else {
          if (c.e->k == E_RC) {
            std::vector<Val> res;
            int sb;
            if (trySpec(f, R, o, va, nva, &res, &sb)) {
              if (sb < 0) {  // both sides returned the same
                for (size_t i = 0; i < res.size(); ++i) ret[i] = res[i];
                return;
              }
              if (stop && sb == stop->blk) {
                stop->hit = true;
                stop->out = res;
                return;
              }
              // enter the join block with the merged phi values
              const BasicBlock *jb = nullptr;
              for (auto &kv : f->blkIdx)
                if ((int)kv.second == sb) jb = kv.first;
              (void)jb;
              // every edge into the block lists the same destinations
              for (auto &e : f->edges)
                if ((int)e.blk == sb) {
                  for (size_t i = 0; i < e.mv.size(); ++i) R[e.mv[i].d] = res[i];
                  break;
                }
              pc = f->blkPc[sb];
              break;
            }
            cstack[me].op = &o;
          }
          side = decide(c);
        }
        if (take(side ? o.a : o.b)) return;
        break;
      }
      case O_SWITCH: {
        Val c = V(o.c);
        auto &cs = f->switches[o.b].second;
        int32_t e = o.a;
        if (!c.e) {
          for (auto &k : cs)
            if (k.first == c.v) {
              e = k.second;
              break;
            }
        } else {
          for (auto &k : cs)
            if (decide(bvCmp(CmpInst::ICMP_EQ, c, C(k.first), o.w))) {
              e = k.second;
              break;
            }
        }
        if (take(e)) return;
        break;
      }
      case O_RET:
        for (int i = 0; i < o.b; ++i) ret[i] = V(o.a >= 0 ? o.a + i : o.a - i);
        return;
      case O_UNREACH: violation("crash", "control reached an impossible point (missing return or no-return call) in " + repoFnName());
      case O_RMW: {
        uint64_t a = V(o.a).v;
        checkAccess(a, o.w, true);
        Val old = loadMem(a, o.w);
        Val b = V(o.b), nv;
        unsigned w = o.w * 8;
        switch (o.sub) {
          case AtomicRMWInst::Xchg: nv = b; break;
          case AtomicRMWInst::Add: nv = bvBin(Instruction::Add, old, b, w); break;
          case AtomicRMWInst::Sub: nv = bvBin(Instruction::Sub, old, b, w); break;
          case AtomicRMWInst::And: nv = bvBin(Instruction::And, old, b, w); break;
          case AtomicRMWInst::Or: nv = bvBin(Instruction::Or, old, b, w); break;
          default: pathError("atomicrmw");
        }
        storeMem(a, o.w, nv);
        R[o.d] = old;
        break;
      }
      case O_CMPX: {
        uint64_t a = V(o.a).v;
        checkAccess(a, o.w, true);
        Val old = loadMem(a, o.w);
        bool eq = decide(bvCmp(CmpInst::ICMP_EQ, old, V(o.b), o.w * 8));
        if (eq) storeMem(a, o.w, V(o.c));
        R[o.d] = old;
        R[o.d + 1] = C(eq);
        break;
      }
      case O_BAD: pathError((const char *)o.imm);
      default: pathError("op");
    }
  }
}
bool intrinsic(CallInfo *ci, unsigned iid, Val *a, int n, Val *ret, const Val *va, int nva) {
  Type *t = ci->cb->getType();
  unsigned w = bitsOf(t);
  if (t->isVectorTy()) pathError("vector intrinsic");
  switch (iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t len = concretize(a[2], 64), d = concretize(a[0], 64), s = concretize(a[1], 64);
      if (!len) return true;
      checkAccess(s, len, false);
      checkAccess(d, len, true);
      copyMem(d, s, len);
      return true;
    }
    case Intrinsic::memset: {
      uint64_t len = concretize(a[2], 64), d = concretize(a[0], 64);
      if (!len) return true;
      checkAccess(d, len, true);
      setMem(d, a[1], len);
      return true;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
      ret[0] = a[0];
      return true;
    case Intrinsic::invariant_start: ret[0] = C(0); return true;
    case Intrinsic::is_constant: ret[0] = C(0); return true;
    case Intrinsic::objectsize: ret[0] = C(maskW(w)); return true;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      unsigned p = iid == Intrinsic::umax ? CmpInst::ICMP_UGT : iid == Intrinsic::umin ? CmpInst::ICMP_ULT : iid == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      if (!a[0].e && !a[1].e) {
        int64_t x = (int64_t)sx(a[0].v, w), y = (int64_t)sx(a[1].v, w);
        bool first = iid == Intrinsic::umax ? a[0].v > a[1].v : iid == Intrinsic::umin ? a[0].v < a[1].v : iid == Intrinsic::smax ? x > y : x < y;
        ret[0] = first ? a[0] : a[1];
      } else ret[0] = bvIte(bvCmp(p, a[0], a[1], w), a[0], a[1], w);
      return true;
    }
    case Intrinsic::abs: {
      if (!a[0].e) {
        int64_t x = (int64_t)sx(a[0].v, w);
        ret[0] = C((uint64_t)(x < 0 ? -(uint64_t)x : (uint64_t)x) & maskW(w));
      } else ret[0] = bvIte(bvCmp(CmpInst::ICMP_SLT, a[0], C(0), w), bvBin(Instruction::Sub, C(0), a[0], w), a[0], w);
      return true;
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
      if (a[0].e && iid == Intrinsic::ctpop) {
        Val s = C(0);
        for (unsigned i = 0; i < w; ++i) {
          Val bit = bvBin(Instruction::And, bvBin(Instruction::LShr, a[0], C(i), w), C(1), w);
          s = bvBin(Instruction::Add, s, bit, w);
        }
        ret[0] = s;
        return true;
      }
      uint64_t x = concretize(a[0], w);
      if (iid == Intrinsic::ctpop) ret[0] = C(__builtin_popcountll(x));
      else if (iid == Intrinsic::ctlz) ret[0] = C(x ? __builtin_clzll(x) - (64 - w) : w);
      else if (iid == Intrinsic::cttz) ret[0] = C(x ? __builtin_ctzll(x) : w);
      else ret[0] = C(__builtin_bswap64(x) >> (64 - w));
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      uint64_t x = concretize(a[0], w), y = concretize(a[1], w), s = concretize(a[2], w) % w;
      if (iid == Intrinsic::fshl) ret[0] = C((s ? (x << s | y >> (w - s)) : x) & maskW(w));
      else ret[0] = C((s ? (y >> s | x << (w - s)) : y) & maskW(w));
      return true;
    }
    case Intrinsic::usub_sat: ret[0] = bvIte(!a[0].e && !a[1].e ? C(a[0].v < a[1].v) : bvCmp(CmpInst::ICMP_ULT, a[0], a[1], w), C(0), bvBin(Instruction::Sub, a[0], a[1], w), w); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned bw = bitsOf(ci->cb->getArgOperand(0)->getType());
      uint64_t x = concretize(a[0], bw), y = concretize(a[1], bw);
      bool ov;
      uint64_t r;
      if (iid == Intrinsic::uadd_with_overflow || iid == Intrinsic::umul_with_overflow || iid == Intrinsic::usub_with_overflow) {
        __uint128_t v = iid == Intrinsic::uadd_with_overflow ? (__uint128_t)x + y : iid == Intrinsic::umul_with_overflow ? (__uint128_t)x * y : (__uint128_t)x - y;
        r = (uint64_t)v & maskW(bw);
        ov = v != r;
      } else {
        __int128_t p = (int64_t)sx(x, bw), q = (int64_t)sx(y, bw);
        __int128_t v = iid == Intrinsic::sadd_with_overflow ? p + q : iid == Intrinsic::ssub_with_overflow ? p - q : p * q;
        r = (uint64_t)v & maskW(bw);
        ov = (__int128_t)(int64_t)sx(r, bw) != v;
      }
      ret[0] = C(r);
      ret[1] = C(ov);
      return true;
    }
    case Intrinsic::stacksave: ret[0] = C(stackMark()); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::vastart: {
      // every variadic argument is placed in the overflow area
      uint64_t area = stackAlloc(8 * (nva + 1), 16);
      for (int i = 0; i < nva; ++i) storeMem(area + 8 * i, 8, va[i]);
      uint64_t l = a[0].v;
      storeMem(l, 4, C(48));
      storeMem(l + 4, 4, C(176));
      storeMem(l + 8, 8, C(area));
      storeMem(l + 16, 8, C(0));
      return true;
    }
    case Intrinsic::vacopy: copyMem(a[0].v, a[1].v, 24); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("crash", "trap in " + repoFnName());
    case Intrinsic::eh_typeid_for: ret[0] = C(1); return true;
    case Intrinsic::is_fpclass: {
      if (a[0].e) { ret[0] = C(0); if (isRealKind(a[0].e)) { ret[0] = C((a[1].v & ~(uint64_t)0x0f8) ? 0 : 1); return true; } pathError("is_fpclass"); }
      double d = D(a[0].v);
      uint64_t m = a[1].v;
      bool r = (std::isnan(d) && (m & 3)) || (std::isinf(d) && d < 0 && (m & 4)) || (std::isinf(d) && d > 0 && (m & 512)) || (std::isfinite(d) && (m & 0x1f8));
      ret[0] = C(r);
      return true;
    }
    default: break;
  }
  const char *fn = nullptr;
  switch (iid) {
    case Intrinsic::fabs: fn = "fabs"; break;
    case Intrinsic::exp: fn = "exp"; break;
    case Intrinsic::log: fn = "log"; break;
    case Intrinsic::log2: fn = "log2"; break;
    case Intrinsic::log10: fn = "log10"; break;
    case Intrinsic::pow: fn = "pow"; break;
    case Intrinsic::sqrt: fn = "sqrt"; break;
    case Intrinsic::floor: fn = "floor"; break;
    case Intrinsic::ceil: fn = "ceil"; break;
    case Intrinsic::round: fn = "round"; break;
    case Intrinsic::trunc: fn = "trunc"; break;
    case Intrinsic::maxnum: fn = "fmax"; break;
    case Intrinsic::minnum: fn = "fmin"; break;
    case Intrinsic::fma: case Intrinsic::fmuladd:
      if (a[0].e || a[1].e || a[2].e) ret[0] = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[1]), a[2]);
      else ret[0] = CD(std::fma(D(a[0].v), D(a[1].v), D(a[2].v)));
      return true;
    default: return false;
  }
  if (symMath(fn, a, n, ret)) return true;
  double x = D(a[0].v), y = n > 1 ? D(a[1].v) : 0;
  std::string f = fn;
  if (f == "fabs") x = std::fabs(x);
  else if (f == "exp") x = std::exp(x);
  else if (f == "log") x = std::log(x);
  else if (f == "log2") x = std::log2(x);
  else if (f == "log10") x = std::log10(x);
  else if (f == "pow") x = std::pow(x, y);
  else if (f == "sqrt") x = std::sqrt(x);
  else if (f == "floor") x = std::floor(x);
  else if (f == "ceil") x = std::ceil(x);
  else if (f == "round") x = std::round(x);
  else if (f == "trunc") x = std::trunc(x);
  else if (f == "fmax") x = std::fmax(x, y);
  else x = std::fmin(x, y);
  ret[0] = CD(x);
  return true;
}
void loadModule(const char *bc) {
  SMDiagnostic err;
  auto m = parseIRFile(bc, err, ctx);
  if (!m) {
    err.print("engine", errs());
    _exit(3);
  }
  Mod = m.release();
  DL = &Mod->getDataLayout();
  FILE *fl = cexDir.empty() ? nullptr : fopen(fnListPath().c_str(), "w");
  int idx = 0;
  for (auto &F : *Mod) {
    if (F.isDeclaration()) continue;
    std::string n = F.getName().str();
    if (n.compare(0, 12, "vp_override_") == 0) overrides[n.substr(12)] = &F;
    FnInfo *f = fnFor(&F);
    f->idx = idx++;
    if (auto *sp = F.getSubprogram()) {
      std::string fn = sp->getFilename().str();
      f->repo = fn.find("/repo/") != std::string::npos && fn.find("/repo/include/nlohmann") == std::string::npos;
    }
    if (fl) fprintf(fl, "%s\n", f->repo ? demangle(n).substr(0, 300).c_str() : "");
  }
  if (fl) fclose(fl);
  // eagerly materialise the globals so that constructors see them
  for (auto &g : Mod->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    if (g.isDeclaration()) continue;
    try {
      globalAddr(&g);
    } catch (Bad &b) {
      if (getenv("VP_VERBOSE")) fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), b.m.c_str());
    }
  }
}
// decode everything that can be reached before the first fork: the paths inherit it
void warmUp(FnInfo *entry) {
  std::vector<Function *> todo{entry->F};
  std::unordered_map<Function *, bool> seen;
  auto push = [&](Function *F) {
    if (F && !F->isDeclaration() && !seen[F]) {
      seen[F] = true;
      todo.push_back(F);
    }
  };
  seen[entry->F] = true;
  for (auto &g : Mod->globals())
    if (g.hasInitializer())
      if (auto *ag = dyn_cast<ConstantAggregate>(g.getInitializer())) {
        std::vector<const Constant *> st{ag};
        while (!st.empty()) {
          const Constant *c = st.back();
          st.pop_back();
          if (auto *F = dyn_cast<Function>(c)) push(const_cast<Function *>(F));
          if (isa<ConstantAggregate>(c) || isa<ConstantExpr>(c))
            for (auto &o : c->operands())
              if (auto *oc = dyn_cast<Constant>(o.get())) st.push_back(oc);
        }
      }
  while (!todo.empty()) {
    Function *F = todo.back();
    todo.pop_back();
    FnInfo *f = fnFor(F);
    if (!f->decoded) decode(f);
    for (CallInfo *ci : f->calls) {
      if (!ci->ready) prepCall(ci);
      if (ci->fi) push(ci->fi->F);
      else if (ci->callee && !ci->iid) push(ci->callee);
      for (auto &op : ci->cb->operands())
        if (auto *G = dyn_cast<Function>(op->stripPointerCasts())) push(const_cast<Function *>(G));
    }
    for (auto &b : *F)
      for (auto &I : b)
        if (isa<StoreInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I))
          for (auto &op : I.operands())
            if (auto *G = dyn_cast<Function>(op->stripPointerCasts())) push(const_cast<Function *>(G));
  }
}
void runCtors() {
  auto *g = Mod->getGlobalVariable("llvm.global_ctors");
  if (!g || !g->hasInitializer()) return;
  auto *arr = dyn_cast<ConstantArray>(g->getInitializer());
  if (!arr) return;
  for (unsigned i = 0; i < arr->getNumOperands(); ++i) {
    auto *s = cast<ConstantStruct>(arr->getOperand(i));
    if (auto *F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) execFn(fnFor(F), nullptr, 0, nullptr);
  }
}
FnInfo *findFn(const char *name) {
  Function *F = Mod->getFunction(name);
  return F && !F->isDeclaration() ? fnFor(F) : nullptr;
}
