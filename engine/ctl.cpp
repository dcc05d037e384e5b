#include "engine.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
Shared *sh;
int maxProcs = 8;
int rcForkLimit = 1 << 30, eqForkLimit = 0;
unsigned rlimitBranch = 20000000, rlimitAssert = 60000000;
double deadline = 0;
long maxPaths = 1L << 60;
std::vector<Event> events;
std::string cexDir;
long forksMade = 0;
uint64_t modelBV(Z3_model m, Z3_ast a, unsigned w);
Z3_model pathModel();
static bool isRoot = true;
static int nChildren = 0;

double nowS() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
void shLock() {
  while (__sync_lock_test_and_set(&sh->lock, 1)) usleep(20);
}
void shUnlock() { __sync_lock_release(&sh->lock); }
static void reap(bool block) {
  while (nChildren > 0) {
    int st;
    pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG);
    if (p <= 0) return;
    --nChildren;
    if (WIFSIGNALED(st)) {
      __sync_fetch_and_add(&sh->pathsErr, 1);
      snprintf(sh->errMsg, sizeof sh->errMsg, "a path process died with signal %d", WTERMSIG(st));
      // it held a token
      __sync_fetch_and_sub(&sh->running, 1);
    }
  }
}
static bool tryToken() {
  for (;;) {
    long r = sh->running;
    if (r >= maxProcs) return false;
    if (__sync_bool_compare_and_swap(&sh->running, r, r + 1)) return true;
  }
}
static void stopCheck() {
  if (deadline && nowS() > deadline) {
    sh->outOfBudget = 1;
    sh->stop = 1;
  }
  if (sh->paths > maxPaths) {
    sh->outOfBudget = 1;
    sh->stop = 1;
  }
  if (sh->stop) finishPath("stopped");
}
// Every live process holds a token except while it waits for a child.
bool doFork() {
  stopCheck();
  reap(false);
  __sync_fetch_and_add(&sh->forks, 1);
  static const bool forkLog = getenv("VP_FORKLOG") != nullptr;
  if (forkLog) fprintf(stderr, "[fork] %s\n", stackTrace().c_str());
  fflush(stdout);
  fflush(stderr);
  bool par = tryToken();
  long np = __sync_add_and_fetch(&sh->procs, 1);
  if (np > sh->peakProcs) sh->peakProcs = np;
  pid_t p = fork();
  if (p < 0) {
    if (par) __sync_fetch_and_sub(&sh->running, 1);
    pathError("fork failed");
  }
  if (p == 0) {
    isRoot = false;
    nChildren = 0;
    return true;
  }
  ++nChildren;
  ++forksMade;
  if (!par) {
    // hand our token to the child, wait until it is done, then get one back
    int st;
    pid_t q;
    for (;;) {
      q = waitpid(p, &st, 0);
      if (q == p || q < 0) break;
    }
    --nChildren;
    if (q == p && WIFSIGNALED(st)) {
      __sync_fetch_and_add(&sh->pathsErr, 1);
      snprintf(sh->errMsg, sizeof sh->errMsg, "a path process died with signal %d", WTERMSIG(st));
    } else {
      // child gave its token back on exit: take one again
      while (!tryToken()) usleep(200);
    }
    stopCheck();
  }
  return false;
}
[[noreturn]] static void leave() {
  __sync_fetch_and_sub(&sh->running, 1);
  __sync_fetch_and_add(&sh->instrs, icount);
  fflush(stdout);
  fflush(stderr);
  while (nChildren > 0) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p <= 0) break;
    --nChildren;
    if (WIFSIGNALED(st)) {
      __sync_fetch_and_add(&sh->pathsErr, 1);
      snprintf(sh->errMsg, sizeof sh->errMsg, "a path process died with signal %d", WTERMSIG(st));
      __sync_fetch_and_sub(&sh->running, 1);
    }
  }
  __sync_fetch_and_sub(&sh->procs, 1);
  _exit(0);
}
std::string pathSample() {
  std::string s;
  Z3_model m = pathModel();
  for (auto &e : events) {
    char b[128];
    if (e.kind == 'c') snprintf(b, sizeof b, "%s=%lu ", e.name.c_str(), (unsigned long)e.v);
    else if (e.kind == 'b') snprintf(b, sizeof b, "%s=0x%lx ", e.name.c_str(), m ? (unsigned long)modelBV(m, e.a, e.w) : 0ul);
    else snprintf(b, sizeof b, "%s=%.6g ", e.name.c_str(), witness[e.var].get_d());
    s += b;
    if (s.size() > 900) break;
  }
  return s;
}
void finishPath(const char *how) {
  if (specDepth) throw SpecFail();
  std::string h = how;
  long n = __sync_add_and_fetch(&sh->paths, 1);
  if (h == "ok") {
    long k = __sync_add_and_fetch(&sh->pathsOk, 1);
    if (k == 1 || k == 10 || k == 100 || k == 500) {
      std::string s = pathSample();
      shLock();
      if (sh->nsamples < 8) {
        snprintf(sh->samples[sh->nsamples], 1024, "%s", s.c_str());
        sh->nsamples++;
      }
      shUnlock();
    }
  } else if (h == "assume" || h == "infeasible") __sync_fetch_and_add(&sh->pathsAssume, 1);
  else if (h == "violation") __sync_fetch_and_add(&sh->pathsViol, 1);
  else if (h == "error") __sync_fetch_and_add(&sh->pathsErr, 1);
  else __sync_fetch_and_add(&sh->pathsCut, 1);
  (void)n;
  leave();
}
void pathError(const std::string &msg) {
  if (specDepth) throw SpecFail();
  std::string t = stackTrace();
  shLock();
  snprintf(sh->errMsg, sizeof sh->errMsg, "%s at %s", msg.c_str(), t.c_str());
  shUnlock();
  if (getenv("VP_VERBOSE")) fprintf(stderr, "[engine error] %s\n  at %s\n", msg.c_str(), t.c_str());
  finishPath("error");
}
static void writeCex(const std::string &kind, const std::string &label, Z3_model m, const std::vector<mpq_class> *wit) {
  shLock();
  int li = -1;
  for (int i = 0; i < sh->nlabels; ++i)
    if (label == sh->violLabel[i]) li = i;
  if (li < 0 && sh->nlabels < 64) {
    li = sh->nlabels;
    snprintf(sh->violLabel[li], 160, "%s", label.c_str());
    sh->violCnt[li] = 0;
    sh->nlabels = li + 1;
  }
  int cnt = li < 0 ? 99 : sh->violCnt[li]++;
  long id = sh->nviol++;
  shUnlock();
  if (cnt >= 6) return;
  std::string fn = cexDir + "/cex" + std::to_string(id) + ".txt";
  std::string tmp = fn + ".tmp";
  FILE *f = fopen(tmp.c_str(), "w");
  if (!f) return;
  fprintf(f, "# kind %s\n# label %s\n# at %s\n", kind.c_str(), label.c_str(), stackTrace().c_str());
  const auto &w = wit ? *wit : witness;
  for (auto &e : events) {
    if (e.kind == 'c') fprintf(f, "c %s %lu\n", e.name.c_str(), (unsigned long)e.v);
    else if (e.kind == 'b') fprintf(f, "b %s %lu\n", e.name.c_str(), m ? (unsigned long)modelBV(m, e.a, e.w) : 0ul);
    else fprintf(f, "r %s %.17g\n", e.name.c_str(), w[e.var].get_d());
  }
  fclose(f);
  rename(tmp.c_str(), fn.c_str());
}
void violation(const std::string &kind, const std::string &label) {
  if (specDepth) throw SpecFail();
  writeCex(kind, label, pathModel(), nullptr);
  finishPath("violation");
}
void violationModel(const std::string &kind, const std::string &label, Z3_model m, const std::vector<mpq_class> *wit) {
  if (specDepth) throw SpecFail();
  writeCex(kind, label, m, wit);
  finishPath("violation");
}
// ------------------------------------------------------------------ main
static std::string entryName;
static ucontext_t mainCtx, runCtx;
static void onSegv(int sig, siginfo_t *si, void *) {
  char b[96];
  snprintf(b, sizeof b, "%s", sig == SIGSEGV || sig == SIGBUS ? "invalid memory access" : sig == SIGFPE ? "arithmetic trap" : "abort");
  signal(sig, SIG_DFL);
  specDepth = 0;
  violation("crash", b);
}
static void runner() {
  FnInfo *f = findFn(entryName.c_str());
  if (!f) {
    fprintf(stderr, "no entry %s\n", entryName.c_str());
    _exit(3);
  }
  extern void warmUp(FnInfo *);
  warmUp(f);
  pathModel();
  if (getenv("VP_VERBOSE")) fprintf(stderr, "warmed up\n");
  runCtors();
  try {
    execFn(f, nullptr, 0, nullptr);
  } catch (SpecFail &) {
    pathError("stray speculation failure");
  }
  finishPath("ok");
}
int main(int argc, char **argv) {
  std::string bc, stats;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx();
    else if (a == "--entry") entryName = nx();
    else if (a == "--out") cexDir = nx();
    else if (a == "--stats") stats = nx();
    else if (a == "--budget") deadline = nowS() + atof(nx().c_str());
    else if (a == "--procs") maxProcs = atoi(nx().c_str());
    else if (a == "--maxpaths") maxPaths = atol(nx().c_str());
  }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof(Shared));
  double t0 = nowS();
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    sh->running = 1;
    sh->procs = 1;
    memInit();
    symInit();
    loadModule(bc.c_str());
    if (getenv("VP_VERBOSE")) fprintf(stderr, "loaded in %.2fs\n", nowS() - t0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    stack_t ss;
    ss.ss_sp = mmap(nullptr, 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 8 << 20;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    sa.sa_sigaction = onSegv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    size_t sz = 2ull << 30;
    getcontext(&runCtx);
    runCtx.uc_stack.ss_sp = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    runCtx.uc_stack.ss_size = sz;
    runCtx.uc_link = &mainCtx;
    makecontext(&runCtx, runner, 0);
    swapcontext(&mainCtx, &runCtx);
    _exit(0);
  }
  int st = 0;
  // supervise: hard stop a little after the deadline
  for (;;) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if (deadline && nowS() > deadline) sh->outOfBudget = 1, sh->stop = 1;
    if (deadline && nowS() > deadline + 20) {
      kill(-p, SIGKILL);
    }
    usleep(3000);
  }
  if (WIFSIGNALED(st) && !sh->outOfBudget) {
    sh->pathsErr++;
    snprintf(sh->errMsg, sizeof sh->errMsg, "root path died with signal %d", WTERMSIG(st));
  }
  FILE *f = stats.empty() ? stdout : fopen(stats.c_str(), "w");
  fprintf(f, "{\"paths\":%ld,\"paths_ok\":%ld,\"paths_violation\":%ld,\"paths_assumed_away\":%ld,\"paths_cut\":%ld,\"paths_error\":%ld,\"forks\":%ld,\"peak_procs\":%ld,",
          sh->paths, sh->pathsOk, sh->pathsViol, sh->pathsAssume, sh->pathsCut, sh->pathsErr, sh->forks, sh->peakProcs);
  fprintf(f, "\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"max_query_s\":%.3f,", sh->queries, sh->qsat, sh->qunsat, sh->qunknown, sh->solverS, sh->maxQ);
  fprintf(f, "\"asserts\":%ld,\"asserts_symbolic\":%ld,\"asserts_algebraic_fallback\":%ld,\"symbolic_branches\":%ld,\"infeasible_sides\":%ld,\"cut_sides\":%ld,\"generic_position_cuts\":%ld,\"merged_regions\":%ld,\"instructions\":%ld,\"out_of_budget\":%ld,\"violations\":%ld,",
          sh->asserts, sh->assertsSolver, sh->algebraic, sh->symBranches, sh->infeasible, sh->cutBranches, sh->cutCmp, sh->merged, sh->instrs, sh->outOfBudget, sh->nviol);
  auto esc = [](const char *s) {
    std::string o;
    for (; *s; ++s) {
      if (*s == '"' || *s == '\\') o += '\\', o += *s;
      else if ((unsigned char)*s < 32) o += ' ';
      else o += *s;
    }
    return o;
  };
  fprintf(f, "\"error\":\"%s\",\"covers\":{", esc(sh->errMsg).c_str());
  for (int i = 0; i < sh->ncovers; ++i) fprintf(f, "%s\"%s\":%u", i ? "," : "", esc(sh->coverNames[i]).c_str(), sh->covers[i]);
  fprintf(f, "},\"samples\":[");
  for (int i = 0; i < sh->nsamples; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(sh->samples[i]).c_str());
  fprintf(f, "],\"functions\":[");
  {
    // the parent never loaded the module: functions are listed by the child through a file
    std::string fl = cexDir + "/functions.txt";
    FILE *g = fopen(fl.c_str(), "r");
    bool first = true;
    if (g) {
      char line[1024];
      long i = 0;
      while (fgets(line, sizeof line, g)) {
        line[strcspn(line, "\n")] = 0;
        if (i < (1 << 16) && sh->fnSeen[i] && line[0]) {
          fprintf(f, "%s\"%s\"", first ? "" : ",", esc(line).c_str());
          first = false;
        }
        ++i;
      }
      fclose(g);
    }
  }
  fprintf(f, "],\"wall_s\":%.2f}\n", nowS() - t0);
  if (f != stdout) fclose(f);
  return 0;
}
