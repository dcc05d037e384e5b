// Native replay of a counterexample: the same harness, compiled with the real sources, fed with the
// values the solver found.  Prints "VP-VIOLATION <label>" and exits 1 when the violation shows.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <signal.h>
#include <string>
#include <unistd.h>
#include <vector>
#include "vp.h"
struct Ev { char k; std::string name; std::string val; bool used = false; };
static std::vector<Ev> evs;
static size_t pos = 0;
static std::string tmpDir = "/tmp";
// The next value of that kind and name.  Values are taken in the order of the symbolic run; where the two
// compilers order the arguments of a call differently, a value is looked up further on.
static Ev &next(char k, const char *name) {
  while (pos < evs.size() && evs[pos].used) ++pos;
  for (size_t i = pos; i < evs.size(); ++i)
    if (!evs[i].used && evs[i].k == k && evs[i].name == name) {
      evs[i].used = true;
      return evs[i];
    }
  fprintf(stderr, "VP-DIVERGED wanted %c %s\n", k, name);
  printf("VP-DIVERGED\n");
  fflush(stdout);
  _exit(4);
}
static void fail(const char *label) {
  printf("\nVP-VIOLATION %s\n", label);
  fflush(stdout);
  _exit(1);
}
extern "C" {
uint64_t vp_choice(const char *name, uint64_t n) { return strtoull(next('c', name).val.c_str(), 0, 10); }
uint64_t vp_bits(const char *name, unsigned w) { return strtoull(next('b', name).val.c_str(), 0, 10); }
double vp_real(const char *name) { return strtod(next('r', name).val.c_str(), 0); }
double vp_double(const char *name) {
  uint64_t u = strtoull(next('b', name).val.c_str(), 0, 10);
  double d;
  memcpy(&d, &u, 8);
  return d;
}
void vp_assume(bool c) {
  if (!c) {
    printf("VP-ASSUME\n");
    fflush(stdout);
    _exit(5);
  }
}
void vp_assert(bool c, const char *label) {
  if (!c) fail(label);
}
static bool inf(double a) { return std::isinf(a); }
void vp_log_eq(double a, double b, const char *label) {
  if (std::isnan(a) || std::isnan(b)) fail(label);
  if (inf(a) || inf(b)) {
    if (a != b) fail(label);
    return;
  }
  double m = std::fmax(std::fabs(a), std::fabs(b));
  if (std::fabs(a - b) > 2e-7 * std::fmax(1, m)) fail(label);
}
void vp_log_le(double a, double b, const char *label) {
  if (std::isnan(a) || std::isnan(b)) fail(label);
  if (a == b) return;
  if (a > b + 2e-7 * std::fmax(1, std::fabs(b))) fail(label);
}
void vp_log_near(double a, double b, double tol, const char *label) {
  if (std::isnan(a) || std::isnan(b)) fail(label);
  if (inf(a) || inf(b)) {
    if (a != b) fail(label);
    return;
  }
  if (std::fabs(a - b) > tol * 1.02 + 1e-9) fail(label);
}
void vp_cover(const char *) {}
int vp_tier() { const char *e = getenv("VERIF_TIER"); return e && !strcmp(e, "thorough"); }
int vp_symbolic() { return 0; }
void vp_mode(const char *, int) {}
const char *vp_tmp() {
  static int k = 0;
  return strdup((tmpDir + "/r" + std::to_string(getpid()) + "_" + std::to_string(k++)).c_str());
}
const char *vp_text_real(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return strdup(b);
}
const char *vp_text_int(int64_t v) { return strdup(std::to_string(v).c_str()); }
void vp_unlink(const char *f) {
  if (!strncmp(f, tmpDir.c_str(), tmpDir.size())) unlink(f);
}
void vp_end() {
  printf("VP-OK\n");
  fflush(stdout);
  _exit(0);
}
uint64_t vp_concrete(uint64_t v) { return v; }
int vp_is_symbol(uint64_t) { return 0; }
void vp_log(const char *, uint64_t) {}
void vp_trace() {}
void VP_ENTRY();
}
static void onTerm() {
  fprintf(stderr, "\nVP-TERMINATE uncaught exception\n");
  abort();
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  if (!f) return 3;
  if (argc > 2) tmpDir = argv[2];
  char line[65536];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#' || line[0] == '\n') continue;
    char k, name[256], val[4096];
    if (sscanf(line, "%c %255s %4095s", &k, name, val) == 3) evs.push_back({k, name, val});
  }
  fclose(f);
  std::set_terminate(onTerm);
  VP_ENTRY();
  printf("VP-OK\n");
  fflush(stdout);
  _exit(0);
}
