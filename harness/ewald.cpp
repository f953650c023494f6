// G01: periodic gravity corrections from the Ewald table
#include "gsym.h"
#include "Ewald.h"
#include "CodeTiming.h"
typedef Ewald<3> EW; static CodeTiming TM; static const double SZ[4][3] = {{1, 1, 1}, {1, 1.25, 1.5}, {1, 6, 1.5}, {6, 1, 1}}; static int GRID = 4, WIDE = 0;
struct Corr { double a[3], p; };
static void box(DomainBox<3>& b, int mask, const double* s) { for (int k = 0; k < 3; k++) if (mask >> k & 1) { b.boundary_lhs[k] = b.boundary_rhs[k] = periodicBoundary; b.min[k] = 0; b.max[k] = s[k]; b.size[k] = s[k]; b.half[k] = 0.5 * s[k]; } else { b.boundary_lhs[k] = b.boundary_rhs[k] = openBoundary; b.min[k] = -big_number; b.max[k] = big_number; b.size[k] = 2 * big_number; b.half[k] = big_number; } b.PeriodicGravity = true; }
static EW* make(int mask, const double* s, double mult = 1, int series = 3) { DomainBox<3> b; box(b, mask, s); return new EW(b, series, 40, GRID, mult, 1e-8, 10, 1, &TM); }
static Corr corr(EW* e, const double* d, double m = 1) { double x[3] = {d[0], d[1], d[2]}; Corr c; e->CalculatePeriodicCorrection(m, x, c.a, c.p); return c; }
// everything two bodies at separation d exert on each other
static Corr total(EW* e, const double* d, double m = 1) { Corr c = corr(e, d, m); double r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], r = sqrt(r2); for (int k = 0; k < 3; k++) c.a[k] += m * d[k] / (r2 * r); c.p += m / r; return c; }
// the periodic length that sets how far the table reaches along open directions
static double len(int mask, const double* s) { if (mask == 5) return s[2]; for (int k = 0; k < 3; k++) if (mask >> k & 1) return s[k]; return 1; }
static int MASK, SIZE, AX;
// a separation inside the cell (for open directions: inside the table), symbolic over the whole range along AX and over a part of it elsewhere
static void inside(double* d, const double* s, bool sign = true) { double L = len(MASK, s); for (int k = 0; k < 3; k++) { double top = MASK >> k & 1 ? 0.4999 * s[k] : 1.9 * L; char nm[8]; sprintf(nm, "d%d", k); d[k] = k == AX ? gs_real(nm, sign ? -top : 1e-3, top) : WIDE ? gs_real(nm, 0.3 * top, 0.4 * top) : (0.34375 + 0.03125 * k) * top; } }
static void sym() { const double* s = SZ[SIZE]; EW* e = make(MASK, s); double d[3]; inside(d, s); double m = gs_real("m", 0.5, 2); Corr c = corr(e, d, m), u = corr(e, d); gs_check_close("proportional-to-mass", c.p, m * u.p, 10); for (int k = 0; k < 3; k++) gs_check_close("proportional-to-mass", c.a[k], m * u.a[k], 10);
  double n[3] = {-d[0], -d[1], -d[2]}; Corr o = corr(e, n, m); gs_check_close("potential-even", o.p, c.p, 10); for (int k = 0; k < 3; k++) gs_check_close("force-odd", o.a[k], -c.a[k], 10); for (int j = 0; j < 3; j++) { double q[3] = {d[0], d[1], d[2]}; q[j] = -q[j]; Corr f = corr(e, q, m); gs_check_close("potential-even-in-each-direction", f.p, c.p, 10); for (int k = 0; k < 3; k++) gs_check_close("only-the-mirrored-component-changes-sign", f.a[k], k == j ? -c.a[k] : c.a[k], 10); } gs_cover("symmetry"); }
static void cont() { const double* s = SZ[SIZE]; EW* e = make(MASK, s); double d[3], q[3], L = len(MASK, s), h = gs_real("step", 1e-9, 0.01); inside(d, s, false); for (int k = 0; k < 3; k++) q[k] = d[k] + (k == AX ? h : 0); double top = MASK >> AX & 1 ? 0.4999 * s[AX] : 1.9 * L; gs_assume(q[AX] <= top); Corr a = corr(e, d), b = corr(e, q); double K = 60 / (L * L * L); gs_check_le("potential-continuous", fabs(b.p - a.p), K * h + 1e-9, 1); for (int k = 0; k < 3; k++) gs_check_le("force-continuous", fabs(b.a[k] - a.a[k]), K * h + 1e-9, 1); gs_cover("continuity"); }
// beyond half a box the nearest image counts
static void wrap() { const double* s = SZ[SIZE]; EW* e = make(MASK, s); double d[3], q[3]; inside(d, s); gs_assume(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] > 1e-4); for (int k = 0; k < 3; k++) q[k] = d[k]; q[AX] += (gs_choose("side", 2) ? 1 : -1) * s[AX]; gs_assume(fabs(q[AX]) > 0.5 * s[AX]); gs_assume(fabs(q[AX]) < s[AX]); double m = gs_real("m", 0.5, 2); Corr a = total(e, d, m), b = total(e, q, m); gs_check_close("potential-same-for-all-images", b.p, a.p, 10); for (int k = 0; k < 3; k++) gs_check_close("force-same-for-all-images", b.a[k], a.a[k], 10); gs_cover("wrapped"); }
static int nper();
static int nper() { return (MASK & 1) + (MASK >> 1 & 1) + (MASK >> 2 & 1); }
// the force of the periodic line or plane, valid far away
static void line(const double* d, const double* s, double m, double* f) { double L = len(MASK, s); if (nper() == 1) { double c = 0; for (int k = 0; k < 3; k++) if (!(MASK >> k & 1)) c += d[k] * d[k]; for (int k = 0; k < 3; k++) f[k] = MASK >> k & 1 ? 0 : 2 * m * d[k] / (L * c); } else { double A = 1; for (int k = 0; k < 3; k++) if (MASK >> k & 1) A *= s[k]; for (int k = 0; k < 3; k++) f[k] = MASK >> k & 1 ? 0 : (d[k] > 0 ? 2 : -2) * 3.14159265358979 * m / A; } }
static void far() { const double* s = SZ[SIZE]; EW* e = make(MASK, s); double d[3], q[3], f[3], L = len(MASK, s), m = gs_real("m", 0.5, 2); int out = 0; for (int k = 0; k < 3; k++) { char nm[8]; sprintf(nm, "d%d", k); d[k] = MASK >> k & 1 ? (k == AX ? gs_real(nm, -0.4999 * s[k], 0.4999 * s[k]) : 0.1875 * s[k]) : out++ ? (k == AX ? gs_real(nm, -3 * L, 3 * L) : 0.4375 * L) : gs_real(nm, 2.3 * L, 2.9 * L) * (gs_choose("below", 2) ? -1 : 1); } Corr c = total(e, d, m); line(d, s, m, f); for (int k = 0; k < 3; k++) gs_check_close("far-force-is-that-of-the-line-or-plane", c.a[k], f[k], 1); for (int k = 0; k < 3; k++) q[k] = d[k] * (MASK >> k & 1 ? 1 : 2); Corr c2 = total(e, q, m);
  if (nper() == 1) { double c1 = 0; for (int k = 0; k < 3; k++) if (!(MASK >> k & 1)) c1 += d[k] * d[k]; gs_check_close("far-potential-difference", c2.p - c.p, -m * (log(4 * c1) - log(c1)) / L, 1); } else { for (int k = 0; k < 3; k++) if (!(MASK >> k & 1)) gs_check_close("far-potential-difference", c2.p - c.p, -f[k] * d[k], 1); } gs_cover("far"); }
// inside the table, close to its edge, the same force
static void edge() { const double* s = SZ[SIZE]; EW* e = make(MASK, s); double d[3], f[3], L = len(MASK, s); int out = 0; for (int k = 0; k < 3; k++) d[k] = MASK >> k & 1 ? 0.15625 * s[k] : out++ ? 0.140625 * L : 1.9 * L; gs_choose("case", 1); d[AX] = MASK >> AX & 1 ? gs_real("d", -0.4999 * s[AX], 0.4999 * s[AX]) : gs_real("d", 1.8 * L, 1.99 * L); Corr c = corr(e, d); line(d, s, 1, f); double r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2], w = 1 / (r2 * sqrt(r2)); for (int k = 0; k < 3; k++) { gs_check_le("force-at-the-edge-of-the-table", c.a[k] + d[k] * w - f[k], 0.06 / L / L, 1); gs_check_le("force-at-the-edge-of-the-table", f[k] - c.a[k] - d[k] * w, 0.06 / L / L, 1); } gs_cover("edge"); }
static bool near(double a, double b, double tol) { return fabs(a - b) <= tol; }
// the table does not depend on how the sum is split, nor on the names of the axes
static void split() { const double* s = SZ[SIZE]; EW* e = make(MASK, s, 1, 4); EW* g = make(MASK, s, 1.25, 4); double d[3]; inside(d, s); Corr a = corr(e, d), b = corr(g, d); double L = len(MASK, s); for (int k = 0; k < 3; k++) gs_check("force-independent-of-the-split", near(a.a[k], b.a[k], 2e-3 / (L * L))); gs_cover("split"); }
static void perm() { const double* s = SZ[SIZE]; EW* e = make(MASK, s); int P = gs_choose("axes", nper() == 2 ? 2 : 5); static const int PM[5][3] = {{1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}}; const int* p = PM[P]; double s2[3], d[3], d2[3]; int m2 = 0; for (int k = 0; k < 3; k++) { s2[p[k]] = s[k]; if (MASK >> k & 1) m2 |= 1 << p[k]; } EW* g = make(m2, s2); inside(d, s); for (int k = 0; k < 3; k++) d2[p[k]] = d[k]; double L = len(MASK, s);
  bool same = true; double dd = 0; { int a0 = -1, a1 = -1; for (int k = 0; k < 3; k++) { if (MASK >> k & 1 && a0 < 0) a0 = k; } } Corr a = corr(e, d), b = corr(g, d2); for (int k = 0; k < 3; k++) gs_check("force-independent-of-the-naming-of-the-axes", near(a.a[k], b.a[p[k]], 2e-3 / (L * L))); gs_check("potential-independent-of-the-naming-of-the-axes", nper() == 3 || near(a.p, b.p, 2e-3 / L)); gs_cover("axes"); }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[5] = {7, 0, 0, 4, 0}; for (int i = 0; i < 5; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } MASK = v[0]; SIZE = v[1]; AX = v[2]; GRID = v[3]; WIDE = v[4];
#define T(x) if (!strcmp(f, #x)) x();
  T(sym) T(cont) T(wrap) T(far) T(edge) T(split) T(perm) }
