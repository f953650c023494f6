// Harness interface.  A harness is compiled twice: to LLVM IR, executed symbolically by gsym, and
// natively by g++, where the same calls read concrete values from a replay file.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
extern "C" {
double gs_real(const char* name, double lo, double hi);   // arbitrary real in [lo,hi]
int gs_int(const char* name, int lo, int hi);             // arbitrary integer in [lo,hi]
int gs_choose(const char* name, int n);                   // every value 0..n-1, one path each
void gs_assume(bool c);
void gs_check(const char* label, bool c);
void gs_check_close(const char* label, double a, double b, double scale);  // |a-b| <= tol*scale
void gs_check_le(const char* label, double a, double b, double scale);     // a <= b + tol*scale
void gs_cover(const char* label);
double gs_diff(double fx, double x);                      // engine only: symbolic d fx / d x
int gs_sym(void);                                         // 1 in the engine
void gs_ite(int mode);                                    // bit0: keep int selects, bit1: keep real selects
void gs_div0(int policy);                                 // 1: report division by zero / domain errors
void gs_allow_raise(int on);                              // ExceptionHandler::raise / exit end the path quietly
const char* gs_arg(void);
void gs_end(void);                                        // end this path
bool gs_split(bool c);                                    // fork on c
void gs_debug(const char* label, double v);
void gs_limit(int minstr);                                // instruction budget per path (millions)
int gs_conc(int v);                                       // fork over all feasible values of v
}
// derivative oracle: symbolic differentiation in the engine, Richardson extrapolation natively
template <class F> double gs_derivative(F f, double x, double h) {
  if (gs_sym()) return gs_diff(f(x), x);
  auto c = [&](double e) { return (f(x + e) - f(x - e)) / (2 * e); };
  double a = c(h), b = c(h / 2), d = c(h / 4); double r1 = (4 * b - a) / 3, r2 = (4 * d - b) / 3; return (16 * r2 - r1) / 15;
}
inline bool gs_is(const char* s) { return strcmp(gs_arg(), s) == 0; }
inline bool gs_starts(const char* s) { return strncmp(gs_arg(), s, strlen(s)) == 0; }
