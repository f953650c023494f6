// A01 sorting/matrix/index helpers, A02 random numbers, B02 periodic vectors and boxes
#include "gsym.h"
#include <vector>
#include "Particle.h"
#include "DomainBox.h"
#include "InlineFuncs.h"
#include "Tree.h"
#include "RandomNumber.h"
#include "Flags.h"
using std::vector;
static double R(const char* f, int i, double lo, double hi) { char b[16]; sprintf(b, "%s%d", f, i); return gs_real(b, lo, hi); }
static double R2(const char* f, int i, int j, double lo, double hi) { char b[16]; sprintf(b, "%s%d_%d", f, i, j); return gs_real(b, lo, hi); }
static void sorts(int n) {
  double v[8], r[8]; int ids[8], qv[8];
  for (int i = 0; i < n; i++) { v[i] = R("v", i, -10, 10); r[i] = v[i]; ids[i] = 10 + i; }
  int w = gs_choose("algorithm", 3);
  if (w == 0) { InsertionSort(n, r); for (int i = 1; i < n; i++) gs_check("insertion-sorted", r[i - 1] <= r[i]);
    bool used[8] = {0}; for (int i = 0; i < n; i++) { bool f = false; for (int j = 0; j < n && !f; j++) if (!used[j] && r[i] == v[j]) { used[j] = true; f = true; } gs_check("insertion-permutation", f); } }
  if (w == 1) { InsertionSortIds(n, ids, r); for (int i = 1; i < n; i++) gs_check("sorted-by-key", r[i - 1] <= r[i]);
    bool used[8] = {0}; for (int i = 0; i < n; i++) { gs_check("id-follows-key", ids[i] >= 10 && ids[i] < 10 + n && r[i] == v[ids[i] - 10]); gs_check("ids-permutation", !used[ids[i] - 10]); used[ids[i] - 10] = true; } }
  if (w == 2) { Heapsort(n, qv, v); for (int i = 1; i < n; i++) gs_check("heapsort-order", v[qv[i - 1]] <= v[qv[i]]); bool used[8] = {0}; for (int i = 0; i < n; i++) { gs_check("heapsort-permutation", qv[i] >= 0 && qv[i] < n && !used[qv[i]]); used[qv[i]] = true; } for (int i = 0; i < n; i++) gs_check("heapsort-keeps-values", v[i] == r[i]); }
  gs_cover("sorted");
}
static void isorts(int n) { // integer version used for neighbour lists
  int v[8], r[8]; char b[8]; for (int i = 0; i < n; i++) { sprintf(b, "k%d", i); v[i] = r[i] = gs_int(b, -1000000, 1000000); } InsertionSort(n, r); int sv = 0, sr = 0; for (int i = 0; i < n; i++) { sv += v[i]; sr += r[i]; } for (int i = 1; i < n; i++) gs_check("int-sorted", r[i - 1] <= r[i]); gs_check("int-sum-kept", sv == sr); gs_cover("isorted"); }
template <int nd> void invert() { FLOAT A[nd][nd], B[nd][nd]; for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) A[i][j] = R2("A", i, j, -3, 3);
  double det; if (nd == 1) det = A[0][0]; else if (nd == 2) det = A[0][0] * A[1 % nd][1 % nd] - A[0][1 % nd] * A[1 % nd][0]; else { det = 0; for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, c = (k + 2) % 3; det += A[0][k] * (A[1 % nd][a % nd] * A[2 % nd][c % nd] - A[1 % nd][c % nd] * A[2 % nd][a % nd]); } }
  gs_assume(det * det > 1e-2); InvertMatrix<nd>(A, B);
  for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) { double s = 0, t = 0; for (int k = 0; k < nd; k++) { s += A[i][k] * B[k][j]; t += B[i][k] * A[k][j]; } gs_check_close("inverse-right", s, i == j ? 1.0 : 0.0, 1); gs_check_close("inverse-left", t, i == j ? 1.0 : 0.0, 1); } gs_cover("inverted"); }
static void euler() {
  double phi = gs_real("phi", -7, 7), th = gs_real("theta", -7, 7), psi = gs_real("psi", -7, 7), A[3][3]; EulerAngleMatrix(phi, th, psi, A);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = 0, t = 0; for (int k = 0; k < 3; k++) { s += A[i][k] * A[j][k]; t += A[k][i] * A[k][j]; } gs_check_close("rotation-rows-orthonormal", s, i == j ? 1.0 : 0.0, 1); gs_check_close("rotation-columns-orthonormal", t, i == j ? 1.0 : 0.0, 1); }
  double det = 0; for (int k = 0; k < 3; k++) det += A[0][k] * (A[1][(k + 1) % 3] * A[2][(k + 2) % 3] - A[1][(k + 2) % 3] * A[2][(k + 1) % 3]); gs_check_close("rotation-determinant", det, 1.0, 1);
  double x[6], y[6], n[2], m[2]; for (int i = 0; i < 6; i++) x[i] = y[i] = R("x", i, -3, 3); EulerAngleArrayRotation(2, phi, th, psi, y);
  for (int i = 0; i < 2; i++) { n[i] = DotProduct(x + 3 * i, x + 3 * i, 3); m[i] = DotProduct(y + 3 * i, y + 3 * i, 3); gs_check_close("rotation-keeps-length", m[i], n[i], 30); } gs_check_close("rotation-keeps-angles", DotProduct(x, x + 3, 3), DotProduct(y, y + 3, 3), 30);
  double z[3] = {x[0], x[1], x[2]}; EulerAngleRotation(phi, th, psi, z); for (int k = 0; k < 3; k++) gs_check_close("single-and-array-rotation-agree", z[k], y[k], 10); gs_cover("rotated"); }
static void unique(int n, int range) { int v[8]; char b[8]; bool ok = true; for (int i = 0; i < n; i++) { sprintf(b, "id%d", i); v[i] = gs_int(b, -2, range + 1); if (v[i] < 0 || v[i] >= range) ok = false; } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (v[i] == v[j]) ok = false;
  bool r = VerifyUniqueIds(n, range, v); gs_check("unique-ids-accepted-exactly", r == ok); gs_cover(ok ? "unique" : "rejected"); }
static void index() { int n = 1 + gs_choose("n", 5); vector<double> a(n); for (int i = 0; i < n; i++) { a[i] = R("a", i, -10, 10); if (i) gs_assume(a[i - 1] <= a[i]); } double x = gs_real("x", -12, 12); size_t k = getClosestIndex(a.begin(), a.end(), x); gs_check("closest-index-in-range", k < (size_t)n); if (k < (size_t)n) for (int i = 0; i < n; i++) gs_check_le("closest-index-is-closest", fabs(a[k] - x), fabs(a[i] - x), 10); gs_cover("closest"); }
static void misc() {
  int w = gs_choose("what", 7);
  if (w == 0) { double a = gs_real("a", -3, 3), b = gs_real("b", -3, 3), c = gs_real("c", -3, 3), m = min3(a, b, c), M = max3(a, b, c); gs_check("min3", m <= a && m <= b && m <= c && (m == a || m == b || m == c)); gs_check("max3", M >= a && M >= b && M >= c && (M == a || M == b || M == c)); }
  if (w == 1) { double a = gs_real("a", -3, 3); int s = sgn(a); gs_check("sgn", s == (a > 0 ? 1 : a < 0 ? -1 : 0)); }
  if (w == 2) { double v = gs_real("v", -5, 5), lo = gs_real("lo", -3, 3), hi = gs_real("hi", -3, 3); gs_assume(lo <= hi); double c = clamp(v, lo, hi); gs_check("clamp", c >= lo && c <= hi && (v < lo ? c == lo : v > hi ? c == hi : c == v)); }
  if (w == 3) { int x = gs_choose("k", 600) ; int y = x + 1; bool p = y == 1 || y == 2 || y == 4 || y == 8 || y == 16 || y == 32 || y == 64 || y == 128 || y == 256 || y == 512; gs_check("power-of-two", isPowerOfTwo(y) == p); }
  if (w == 4) { int n = gs_choose("n", 5); vector<int> c(n), d(n); char b[8]; for (int i = 0; i < n; i++) { sprintf(b, "c%d", i); c[i] = gs_int(b, 0, 100000); d[i] = -1; } compute_displs(d, c); int s = 0; for (int i = 0; i < n; i++) { gs_check("displacements-are-prefix-sums", d[i] == s); s += c[i]; } }
  if (w == 5) { double x[3], y[3]; int nd = 1 + gs_choose("nd", 3); double s = 0, q = 0; for (int k = 0; k < nd; k++) { x[k] = R("x", k, -3, 3); y[k] = R("y", k, -3, 3); s += x[k] * y[k]; q += (x[k] - y[k]) * (x[k] - y[k]); } gs_check_close("dot-product", DotProduct(x, y, nd), s, 10); double d = Distance(x, y, nd); gs_check_close("distance", d * d, q, 10); gs_check("distance-nonnegative", d >= 0); }
  if (w == 6) { int a = gs_int("a", -1000000, 1000000); double b = gs_real("b", -3, 3); vector<char> buf; append_bytes(buf, &a); append_bytes(buf, &b); int a2 = 0; double b2 = 0; vector<char>::const_iterator it = buf.begin(); unpack_bytes(&a2, it); unpack_bytes(&b2, it); gs_check("bytes-roundtrip-int", a == a2); gs_check("bytes-roundtrip-double", b == b2); gs_check("bytes-consumed", it == buf.end()); }
  gs_cover("misc");
}
static void level() { // smallest level whose step dt_max/2^level does not exceed dt; dt = dt_max*exp(-t)
  double dtm = gs_real("dt_max", 0.01, 10), t = gs_real("t", -1.3, 7), dt = dtm * exp(-t); int l = ComputeTimestepLevel(dt, dtm); gs_check("level-nonnegative", l >= 0); gs_check("level-bounded", l <= 11);
  gs_check_le("level-step-not-longer-than-dt", t, l * log(2.0), 1); if (l > 0 && t >= 0) gs_check_le("level-not-finer-than-needed", (l - 1) * log(2.0), t, 1); gs_cover("level"); }
// ---------------------------------------------------------------- A02
static unsigned long u64(const char* n) { char b[16]; sprintf(b, "%sh", n); unsigned hi = (unsigned)gs_int(b, -2147483647 - 1, 2147483647); sprintf(b, "%sl", n); unsigned lo = (unsigned)gs_int(b, -2147483647 - 1, 2147483647); return ((unsigned long)hi << 32) | lo; }
static void rng() {
  int w = gs_choose("what", 7); gs_ite(3);
  if (w == 0) { unsigned long s = u64("s"); XorshiftRand r(1); r.x = s; if (s != 0) { r.xorshiftrand(); gs_check("nonzero-state-stays-nonzero", r.x != 0); gs_cover("state"); } }
  if (w == 1) { unsigned long s = u64("s"), t = u64("t"); gs_assume(s != t); XorshiftRand a(1), b(1); a.x = s; b.x = t; unsigned long p = a.xorshiftrand(), q = b.xorshiftrand(); gs_check("state-map-one-to-one", a.x != b.x); gs_cover("injective"); }
  if (w == 2) { int hi = gs_int("hi", 0, 2147483647); unsigned long s = ((unsigned long)hi << 20) + 12345; XorshiftRand a(s), b(s); gs_check("equal-seeds-equal-sequence", a.xorshiftrand() == b.xorshiftrand() && a.x == b.x); gs_cover("seed"); }
  if (w == 3) { XorshiftRand r(1); unsigned long s = u64("s"); r.x = s; double f = r.floatrand(); gs_check("float-not-negative", f >= 0); gs_check("float-at-most-one", f <= 1.0000001); r.x = s; double d = r.doublerand(); gs_check("double-range", d >= 0 && d <= 1.0000001); gs_cover("range"); }
  if (w == 4) { struct G : XorshiftRand { double u[2]; int k; G() : XorshiftRand(1), k(0) {} }; // Gaussian deviates are affine in mean and sigma
    unsigned seed = 1 + gs_choose("seed", 6); XorshiftRand a(seed), b(seed); double m = gs_real("mean", -5, 5), s = gs_real("sigma", 0.01, 5), g = a.gaussrand(m, s), z = b.gaussrand(0.0, 1.0); gs_check_close("gaussian-mean-and-width", g, m + s * z, 50); gs_cover("gauss"); }
  if (w == 5) { DefaultSystemRand r(1); for (int i = 0; i < 4; i++) { double f = r.floatrand(); gs_check("system-float-range", f >= 0 && f <= 1); int k = r.intrand(); gs_check("system-int-range", k >= 0); } srand(5); double m = gs_real("mean", -5, 5), s = gs_real("sigma", 0.01, 5), g = r.gaussrand(m, s); srand(5); double z = r.gaussrand(0.0, 1.0); gs_check_close("system-gaussian-mean-and-width", g, m + s * z, 50); gs_cover("system"); }
  if (w == 6) { unsigned seed = 1 + gs_choose("seed", 6); XorshiftRand r(seed); r.xorshiftrand(); gs_check("seeded-state-nonzero", r.x != 0); XorshiftRand q(seed), p(seed); double U = q.floatrand(), V = q.floatrand(); double z = p.gaussrand(0, 1); gs_check_close("box-muller", z, sqrt(-2 * log(U)) * cos(2 * M_PI * V), 10); gs_cover("boxmuller"); }
}
// ---------------------------------------------------------------- B02
template <int nd> void nearest() {
  DomainBox<nd> box; FLOAT dr[nd], d0[nd], c[nd]; boundaryEnum t[4] = {openBoundary, periodicBoundary, mirrorBoundary, wallBoundary}; int comb = gs_choose("pair", 4); const int L[4] = {1, 1, 0, 2}, Q[4] = {1, 0, 0, 2};
  for (int k = 0; k < nd; k++) { box.min[k] = R("min", k, -2, 2); box.size[k] = R("size", k, 0.1, 4); box.max[k] = box.min[k] + box.size[k]; box.half[k] = 0.5 * box.size[k]; int cc = k ? gs_choose("pairk", 2) : comb; box.boundary_lhs[k] = t[L[cc]]; box.boundary_rhs[k] = t[Q[cc]]; dr[k] = d0[k] = R("dr", k, -6, 6); gs_assume(fabs(dr[k]) <= 1.5 * box.size[k]); c[k] = 77; }
  NearestPeriodicVector(box, dr, c);
  for (int k = 0; k < nd; k++) { bool per = box.boundary_lhs[k] == periodicBoundary && box.boundary_rhs[k] == periodicBoundary; gs_check_close("shifted-separation-is-sum", dr[k], d0[k] + c[k], 10);
    if (!per) gs_check("no-shift-without-periodicity", c[k] == 0.0 && dr[k] == d0[k]); else { bool whole = c[k] == 0.0 || c[k] == box.size[k] || c[k] == -box.size[k]; gs_check("shift-by-whole-boxes", whole); gs_check_le("nearest-image-within-half-box", fabs(dr[k]), box.half[k], 1); gs_check_le("never-longer", fabs(dr[k]), fabs(d0[k]), 1); } }
  gs_cover("nearest"); }
template <int nd> void boxes() {
  Box<nd> A, B; for (int k = 0; k < nd; k++) { A.min[k] = R("amin", k, -2, 2); A.max[k] = A.min[k] + R("asize", k, 0, 3); B.min[k] = R("bmin", k, -2, 2); B.max[k] = B.min[k] + R("bsize", k, 0, 3); }
  int w = gs_choose("what", 4);
  if (w == 0) { bool sep = false; for (int k = 0; k < nd; k++) if (A.min[k] > B.max[k] || B.min[k] > A.max[k]) sep = true; gs_check("box-overlap", BoxOverlap(nd, A.min, A.max, B.min, B.max) == !sep); gs_check("boxes-overlap", BoxesOverlap(A, B) == !sep); gs_cover(sep ? "separate" : "overlapping"); }
  if (w == 1) { double frac = FractionalBoxOverlap(nd, B.min, B.max, A.min, A.max), vol = 1, ov = 1; for (int k = 0; k < nd; k++) { vol *= A.max[k] - A.min[k]; double lo = A.min[k] > B.min[k] ? A.min[k] : B.min[k], hi = A.max[k] < B.max[k] ? A.max[k] : B.max[k]; ov *= hi > lo ? hi - lo : 0.0; } gs_assume(vol > 1e-3); gs_check_close("fractional-overlap", frac * vol, ov, 10); gs_check_le("fraction-at-most-one", frac, 1.0, 1); gs_check_le("fraction-not-negative", 0.0, frac, 1); gs_cover("fraction"); }
  if (w == 2) { GradhSphParticle<nd> p; bool in = true; for (int k = 0; k < nd; k++) { p.r[k] = R("r", k, -3, 6); if (p.r[k] < A.min[k] || p.r[k] >= A.max[k]) in = false; } gs_check("particle-in-box", ParticleInBox<nd, GradhSphParticle>(p, A) == in); gs_cover("inbox"); }
  if (w == 3) { DomainBox<nd> b; boundaryEnum t[4] = {openBoundary, periodicBoundary, mirrorBoundary, wallBoundary}; bool sp = false, pe = false, mi = false; for (int k = 0; k < nd; k++) { int l = gs_choose("l", 4), r = gs_choose("r", 4); b.boundary_lhs[k] = t[l]; b.boundary_rhs[k] = t[r]; sp = sp || l == 1 || l == 2 || r == 1 || r == 2; pe = pe || l == 1 || r == 1; mi = mi || l == 2 || r == 2; } for (int k = nd; k < 3; k++) b.boundary_lhs[k] = b.boundary_rhs[k] = openBoundary; gs_check("any-special", IsAnyBoundarySpecial(b) == sp); gs_check("any-periodic", IsAnyBoundaryPeriodic(b) == pe); gs_check("any-mirror", IsAnyBoundaryReflecting(b) == mi); gs_cover("boundary-kind"); }
}
static void names() { gs_check("open", setBoundaryType("open") == openBoundary); gs_check("periodic", setBoundaryType("periodic") == periodicBoundary); gs_check("mirror", setBoundaryType("mirror") == mirrorBoundary); gs_check("wall", setBoundaryType("wall") == wallBoundary); gs_cover("names"); }
extern "C" void gs_main() {
  int n, m; const char* a = gs_arg();
  if (sscanf(a, "sort-%d", &n) == 1) sorts(n); if (sscanf(a, "isort-%d", &n) == 1) isorts(n);
  if (gs_is("invert-1")) invert<1>(); if (gs_is("invert-2")) invert<2>(); if (gs_is("invert-3")) invert<3>(); if (gs_is("euler")) euler();
  if (sscanf(a, "unique-%d-%d", &n, &m) == 2) unique(n, m); if (gs_is("index")) index(); if (gs_is("misc")) misc(); if (gs_is("level")) level(); if (gs_is("rng")) rng();
  if (gs_is("nearest-1")) nearest<1>(); if (gs_is("nearest-2")) nearest<2>(); if (gs_is("nearest-3")) nearest<3>(); if (gs_is("box-1")) boxes<1>(); if (gs_is("box-2")) boxes<2>(); if (gs_is("box-3")) boxes<3>(); if (gs_is("names")) names();
}
