#include "engine.h"
#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instruction.h>
using namespace llvm;
static uint8_t *shadow;
static uint64_t heapTop, stackTop;
std::vector<WLog> *wlog = nullptr;
static bool ready = false;

struct ByteSrc { Expr *e; uint16_t w; uint8_t idx; uint8_t conc; };
struct SymWord { Expr *whole; ByteSrc b[8]; };
static std::vector<SymWord> words;
static const uint64_t TAG = 0x7FF4DEADull << 32;
static inline bool isTag(uint64_t u) { return (u & 0xFFFFFFFF00000000ull) == TAG; }

void memInit() {
  void *p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  shadow = (uint8_t *)mmap(nullptr, ARENA_SZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  heapTop = ARENA + 64;
  stackTop = STK;
  words.reserve(1 << 12);
  ready = true;
}
static void setShadow(uint64_t a, uint64_t n, uint8_t okay) {
  uint8_t *s = shadow + ((a - ARENA) >> 3);
  uint64_t full = n >> 3;
  if (okay == 8) {
    memset(s, 8, full);
    if (n & 7) s[full] = n & 7;
  } else memset(s, okay, (n + 7) >> 3);
}
void *arenaAlloc(size_t n, size_t align, int kind) {
  if (specDepth) throw SpecFail();
  if (align < 16) align = 16;
  if (n > (2ull << 30)) return nullptr;
  uint64_t a = (heapTop + 16 + align - 1) & ~(uint64_t)(align - 1);
  ((uint64_t *)a)[-2] = n;
  ((uint64_t *)a)[-1] = 0xA110C000 | kind;
  heapTop = (a + n + 16 + 15) & ~15ull;
  if (heapTop > STK) pathError("arena exhausted");
  memset((void *)a, 0xCD, (n + 7) & ~7ull);  // whole words: no stale tag may survive
  setShadow(a, n, 8);
  return (void *)a;
}
size_t arenaSize(void *p) { return ((uint64_t *)p)[-2]; }
static std::string fnName();
void arenaFree(void *p, const char *how) {
  if (!p) return;
  if (specDepth) throw SpecFail();
  uint64_t a = (uint64_t)p;
  if (a >= STK || (a & 15)) violation("memory", std::string("memory error: bad free in ") + fnName());
  uint64_t m = ((uint64_t *)a)[-1];
  if ((m & 0xFFFFFF00) == 0xF7EED000) violation("memory", std::string("memory error: double free in ") + fnName());
  if ((m & 0xFFFFFF00) != 0xA110C000) violation("memory", std::string("memory error: bad free in ") + fnName());
  ((uint64_t *)a)[-1] = 0xF7EED000 | (m & 0xff);
  size_t n = arenaSize(p);
  setShadow(a, n, 0xFD);
  memset(p, 0xDD, (n + 7) & ~7ull);
}
std::string demangle(const std::string &s);
static std::string fnName() {
  const Instruction *i = curInst();
  if (!i) return "?";
  extern std::string repoFnName();
  return repoFnName();
}
void checkAccess(uint64_t a, uint64_t n, bool wr) {
  if (n == 0) return;
  if (!inArena(a)) {
    if (a < 65536) violation("memory", std::string("memory error: null pointer access in ") + fnName());
    return;
  }
  const uint8_t *s = shadow + ((a - ARENA) >> 3);
  uint64_t off = a & 7;
  uint8_t bad = 0;
  bool isBad = false;
  if (off + n <= 8) {
    if (*s == 8 || (*s < 8 && off + n <= *s)) return;
    isBad = true;
    bad = *s;
  } else {
    uint64_t end = a + n;
    uint64_t w = a & ~7ull;
    for (; w < end; w += 8, ++s) {
      if (*s == 8) continue;
      uint64_t need = end - w;
      if (need > 8) need = 8;
      if (*s < 8 && *s > 0 && need <= *s) continue;
      isBad = true;
      bad = *s;
      break;
    }
    if (!isBad) return;
  }
  if (isBad) {
    if (specDepth) throw SpecFail();
    violation("memory", std::string(bad == 0xFD ? "memory error: use after free in " : a >= STK ? "memory error: stack out of bounds in " : "memory error: out of bounds in ") + fnName());
  }
}
static uint32_t newWord(const SymWord &w) {
  words.push_back(w);
  return words.size() - 1;
}
static uint64_t tagFor(Expr *e) {  // whole 64-bit expression
  if (!e->tag) {
    SymWord w;
    w.whole = e;
    for (int i = 0; i < 8; ++i) w.b[i] = ByteSrc{e, 64, (uint8_t)i, 0};
    e->tag = newWord(w) + 1;
  }
  return TAG | (e->tag - 1);
}
static inline void logW(uint64_t a) {
  if (wlog) wlog->push_back({a & ~7ull, *(uint64_t *)(a & ~7ull)});
}
static ByteSrc readByte(uint64_t a) {
  uint64_t u = *(uint64_t *)(a & ~7ull);
  if (isTag(u)) {
    uint32_t id = (uint32_t)u;
    if (id < words.size()) return words[id].b[a & 7];
  }
  return ByteSrc{nullptr, 8, 0, *(uint8_t *)a};
}
static void writeWordBytes(uint64_t wa, const ByteSrc *b) {  // aligned
  logW(wa);
  bool conc = true;
  for (int i = 0; i < 8; ++i)
    if (b[i].e) conc = false;
  if (conc) {
    for (int i = 0; i < 8; ++i) ((uint8_t *)wa)[i] = b[i].conc;
    return;
  }
  bool whole = b[0].e && b[0].w == 64;
  for (int i = 0; i < 8 && whole; ++i)
    if (b[i].e != b[0].e || b[i].idx != i) whole = false;
  if (whole) {
    *(uint64_t *)wa = tagFor(b[0].e);
    return;
  }
  SymWord w;
  w.whole = nullptr;
  memcpy(w.b, b, sizeof w.b);
  *(uint64_t *)wa = TAG | newWord(w);
}
static void writeByte(uint64_t a, ByteSrc s) {
  uint64_t wa = a & ~7ull;
  uint64_t u = *(uint64_t *)wa;
  if (!s.e && !isTag(u)) {
    logW(a);
    *(uint8_t *)a = s.conc;
    return;
  }
  ByteSrc b[8];
  for (int i = 0; i < 8; ++i) b[i] = readByte(wa + i);
  b[a & 7] = s;
  writeWordBytes(wa, b);
}
static inline bool readable(uint64_t a) { return true; }
Val loadMem(uint64_t a, unsigned bytes) {
  uint64_t off = a & 7;
  if (off == 0 && bytes == 8) {
    uint64_t u = *(uint64_t *)a;
    if (!isTag(u)) return C(u);
    uint32_t id = (uint32_t)u;
    if (id < words.size() && words[id].whole) return Val{0, words[id].whole};
    if (id >= words.size()) return C(u);
  } else if (off + bytes <= 8) {
    uint64_t u = *(uint64_t *)(a & ~7ull);
    if (!isTag(u)) {
      switch (bytes) {
        case 1: return C(*(uint8_t *)a);
        case 2: return C(*(uint16_t *)a);
        case 4: return C(*(uint32_t *)a);
        default: {
          uint64_t r = 0;
          memcpy(&r, (void *)a, bytes);
          return C(r);
        }
      }
    }
  } else {
    uint64_t u = *(uint64_t *)(a & ~7ull), u2 = *(uint64_t *)((a + bytes - 1) & ~7ull);
    if (!isTag(u) && !isTag(u2)) {
      uint64_t r = 0;
      memcpy(&r, (void *)a, bytes);
      return C(r);
    }
  }
  ByteSrc b[8];
  bool conc = true;
  for (unsigned i = 0; i < bytes; ++i) {
    b[i] = readByte(a + i);
    if (b[i].e) conc = false;
  }
  if (conc) {
    uint64_t r = 0;
    for (unsigned i = 0; i < bytes; ++i) r |= (uint64_t)b[i].conc << (8 * i);
    return C(r);
  }
  if (b[0].e && b[0].w == bytes * 8) {
    bool same = true;
    for (unsigned i = 0; i < bytes; ++i)
      if (b[i].e != b[0].e || b[i].idx != i) same = false;
    if (same) return Val{0, b[0].e};
  }
  Z3_ast r = nullptr;
  for (int i = bytes - 1; i >= 0; --i) {
    if (b[i].e && b[i].e->k != E_BV) pathError("partial read of a real-valued symbol");
    Z3_ast x = b[i].e ? bvAst(bvExtractByte(Val{0, b[i].e}, b[i].w, b[i].idx), 8) : Z3_mk_unsigned_int64(Z, b[i].conc, Z3_mk_bv_sort(Z, 8));
    r = r ? Z3_mk_concat(Z, r, x) : x;
  }
  return bvVal(r, bytes * 8);
}
void storeMem(uint64_t a, unsigned bytes, Val v) {
  uint64_t off = a & 7;
  if (!v.e) {
    if (off == 0 && bytes == 8) {
      logW(a);
      *(uint64_t *)a = v.v;
      return;
    }
    bool t = isTag(*(uint64_t *)(a & ~7ull));
    if (off + bytes > 8) t = t || isTag(*(uint64_t *)((a + bytes - 1) & ~7ull));
    if (!t) {
      logW(a);
      if (off + bytes > 8) logW(a + bytes - 1);
      switch (bytes) {
        case 1: *(uint8_t *)a = v.v; break;
        case 2: *(uint16_t *)a = v.v; break;
        case 4: *(uint32_t *)a = v.v; break;
        default: memcpy((void *)a, &v.v, bytes);
      }
      return;
    }
    for (unsigned i = 0; i < bytes; ++i) writeByte(a + i, ByteSrc{nullptr, 8, 0, (uint8_t)(v.v >> (8 * i))});
    return;
  }
  if (v.e->k == E_RC) v = C(decide(v));
  if (!v.e) return storeMem(a, bytes, v);
  if (v.e->k != E_BV && bytes != 8) pathError("narrow store of a real-valued symbol");
  unsigned w = v.e->w;
  if (v.e->k == E_BV && w != bytes * 8) {
    v = bvCast(Instruction::ZExt, v, w, bytes * 8);
    if (!v.e) return storeMem(a, bytes, v);
  }
  if (off == 0 && bytes == 8) {
    logW(a);
    *(uint64_t *)a = tagFor(v.e);
    return;
  }
  if (v.e->k != E_BV) pathError("misaligned store of a real-valued symbol");
  for (unsigned i = 0; i < bytes; ++i) writeByte(a + i, ByteSrc{v.e, (uint16_t)(bytes * 8), (uint8_t)i, 0});
}
bool hasSym(uint64_t a, uint64_t n) {
  if (!n) return false;
  uint64_t e = a + n;
  for (uint64_t w = a & ~7ull; w < e; w += 8)
    if (isTag(*(uint64_t *)w)) return true;
  return false;
}
static void logRange(uint64_t a, uint64_t n) {
  if (!wlog) return;
  for (uint64_t w = a & ~7ull; w < a + n; w += 8) logW(w);
}
void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) return;
  if (((d | s | n) & 7) == 0) {
    logRange(d, n);
    memmove((void *)d, (void *)s, n);
    return;
  }
  if (!hasSym(s, n) && !isTag(*(uint64_t *)(d & ~7ull)) && !isTag(*(uint64_t *)((d + n - 1) & ~7ull))) {
    logRange(d, n);
    memmove((void *)d, (void *)s, n);
    return;
  }
  std::vector<ByteSrc> tmp(n);
  for (uint64_t i = 0; i < n; ++i) tmp[i] = readByte(s + i);
  for (uint64_t i = 0; i < n; ++i) writeByte(d + i, tmp[i]);
}
void setMem(uint64_t d, Val c, uint64_t n) {
  if (!n) return;
  if (c.e) {
    for (uint64_t i = 0; i < n; ++i) storeMem(d + i, 1, c);
    return;
  }
  if (isTag(*(uint64_t *)(d & ~7ull)) || isTag(*(uint64_t *)((d + n - 1) & ~7ull))) {
    for (uint64_t i = 0; i < n; ++i) storeMem(d + i, 1, C(c.v & 255));
    return;
  }
  logRange(d, n);
  memset((void *)d, (int)(c.v & 255), n);
}
uint64_t stackMark() { return stackTop; }
void stackRelease(uint64_t m) {
  if (stackTop > m) {
    memset(shadow + ((m - ARENA) >> 3), 0, (stackTop - m + 7) >> 3);
    stackTop = m;
  }
}
uint64_t stackAlloc(uint64_t n, uint64_t align) {
  if (align < 16) align = 16;
  uint64_t a = (stackTop + 16 + align - 1) & ~(align - 1);
  uint64_t e = (a + n + 15) & ~15ull;
  if (e > ARENA + ARENA_SZ) violation("crash", "stack exhausted (unbounded recursion)");
  memset((void *)a, 0xCD, (n + 7) & ~7ull);
  setShadow(a, n, 8);
  stackTop = e;
  return a;
}
// ---------------------------------------------------------------- interposed allocator entry points
extern "C" void __libc_free(void *);
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" __attribute__((visibility("default"))) void free(void *p) {
  if (ready && inArena((uint64_t)p)) {
    arenaFree(p, "free");
    return;
  }
  __libc_free(p);
}
extern "C" __attribute__((visibility("default"))) void *realloc(void *p, size_t n) {
  if (ready && p && inArena((uint64_t)p)) {
    void *q = arenaAlloc(n, 16, 1);
    size_t o = arenaSize(p);
    copyMem((uint64_t)q, (uint64_t)p, o < n ? o : n);
    arenaFree(p, "realloc");
    return q;
  }
  return __libc_realloc(p, n);
}
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
