// native runtime of the harness interface: concrete replay
#include "gsym.h"
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <vector>
struct In { char k; std::string n; double d; long i; };
static std::vector<In> in; static size_t pos = 0; static std::string arg; static double tol = 1e-8; static int fails = 0;
static FILE* out;
static In* next(const char* n) { if (pos < in.size()) { In* r = &in[pos++]; if (r->n != n) { fprintf(out, "ORDER %s %s\n", r->n.c_str(), n); fflush(out); } return r; } fprintf(out, "MISSING %s\n", n); fflush(out); return nullptr; }
static void fail(const char* l, double a, double b) { fails++; fprintf(out, "CHECK-FAIL %s\n  values %.17g %.17g\n", l, a, b); fflush(out); }
static void tr(const char* l, double v) { fprintf(out, "TRACE %s %.17g\n", l, v); fflush(out); }
extern "C" {
double gs_real(const char* n, double lo, double) { In* r = next(n); return r ? r->d : lo; }
int gs_int(const char* n, int lo, int) { In* r = next(n); return r ? (int)r->i : lo; }
int gs_choose(const char* n, int) { In* r = next(n); return r ? (int)r->i : 0; }
void gs_assume(bool c) { if (!c) { fprintf(out, "ASSUME-FALSE\nDONE\n"); fflush(out); _exit(0); } }
void gs_check(const char* l, bool c) { tr(l, c); if (!c) fail(l, c, 1); }
void gs_check_close(const char* l, double a, double b, double s) { tr(l, a); tr(l, b); if (!(std::fabs(a - b) <= tol * std::fabs(s))) fail(l, a, b); }
void gs_check_le(const char* l, double a, double b, double s) { tr(l, a); tr(l, b); if (!(a <= b + tol * std::fabs(s))) fail(l, a, b); }
void gs_cover(const char*) {}
double gs_diff(double, double) { return 0; }
int gs_sym(void) { return 0; }
void gs_ite(int) {}
void gs_div0(int) {}
void gs_allow_raise(int v) { fprintf(out, "ALLOW-RAISE %d\n", v); fflush(out); }
const char* gs_arg(void) { return arg.c_str(); }
void gs_end(void) { fprintf(out, "DONE\n"); fflush(out); _exit(fails ? 1 : 0); }
bool gs_split(bool c) { return c; }
void gs_debug(const char* l, double v) { fprintf(out, "DEBUG %s %.17g\n", l, v); fflush(out); }
void gs_limit(int) {}
int gs_conc(int v) { return v; }
void gs_main(void);
}
int main(int argc, char** argv) {
  out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) return 2; std::ifstream is(argv[1]); std::string line; if (argc > 2) tol = atof(argv[2]);
  while (std::getline(is, line)) { std::istringstream ls(line); std::string k, nm, v; ls >> k; if (k == "arg") { ls >> arg; if (arg == "-") arg = ""; continue; } if (k != "r" && k != "i") continue; ls >> nm >> v; In x; x.k = k[0]; x.n = nm; x.d = strtod(v.c_str(), 0); x.i = k == "i" ? atol(v.c_str()) : 0; in.push_back(x); }
  gs_main(); fprintf(out, "DONE\n"); fflush(out); _exit(fails ? 1 : 0); }
