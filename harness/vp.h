// Interface between the harnesses and the symbolic engine (or the native replay runtime).
#pragma once
#include <cstdint>
extern "C" {
uint64_t vp_choice(const char *name, uint64_t n);       // any value in [0,n): every one is explored
uint64_t vp_bits(const char *name, unsigned w);         // symbolic w-bit vector, zero extended
double vp_real(const char *name);                       // symbolic positive real
double vp_double(const char *name);                     // symbolic IEEE double
void vp_assume(bool c);
void vp_assert(bool c, const char *label);
void vp_log_eq(double a, double b, const char *label);  // equality of log-domain (or real) values
void vp_log_le(double a, double b, const char *label);
void vp_log_near(double a, double b, double tol, const char *label);
void vp_cover(const char *name);                        // reachability witness
int vp_tier();                                          // 0 quick, 1 thorough
int vp_symbolic();                                      // 1 in the engine, 0 in native replay
void vp_mode(const char *mode, int v);
const char *vp_tmp();                                   // fresh scratch file name
void vp_unlink(const char *f);
const char *vp_text_real(double v);                     // text that reads back as v (a stand-in for a symbol)
const char *vp_text_int(int64_t v);                     // the same for an integer; symbols must be in 0..2^31-1
void vp_end();                                          // end this path successfully
uint64_t vp_concrete(uint64_t v);                       // fork over the feasible values
int vp_is_symbol(uint64_t v);
void vp_log(const char *name, uint64_t v);
void vp_trace();
}
