// R04 slope limiters
#include "gsym.h"
#include <vector>
#include "Particle.h"
#include "SlopeLimiter.h"
using std::vector;
template <int ndim> using P = MeshlessFVParticle<ndim>;
// one variable is arbitrary, the others are constant fields with arbitrary (wrong) gradients
template <int ndim, class L> void run(L& lim, int kind, bool edge, int N) {
  vector<P<ndim> > nb(N); P<ndim> p; char b[16]; const int var = gs_choose("var", ndim + 2);
  for (int k = 0; k < ndim; k++) p.r[k] = 0.5 + k;
  p.h = kind == 1 ? gs_real("h", 0.01, 2) : 0.7;
  for (int v = 0; v < ndim + 2; v++) { p.Wprim[v] = 2.0 + v; p.alpha_slope[v] = -7; for (int k = 0; k < ndim; k++) p.grad[v][k] = v == var ? 0.0 : 0.25 * (k + v); }
  p.Wprim[var] = gs_real("W", -3, 3);
  for (int k = 0; k < ndim; k++) { sprintf(b, "grad%d", k); p.grad[var][k] = gs_real(b, -3, 3); }
  double mn = p.Wprim[var], mx = mn, rmax = 0;
  for (int j = 0; j < N; j++) { double d2 = 0; for (int k = 0; k < ndim; k++) { sprintf(b, "dr%d%d", j, k); double d = gs_real(b, -2, 2); nb[j].r[k] = p.r[k] + d; d2 += d * d; }
    gs_assume(d2 > 1e-4);
    for (int v = 0; v < ndim + 2; v++) nb[j].Wprim[v] = p.Wprim[v]; sprintf(b, "W%d", j); nb[j].Wprim[var] = gs_real(b, -3, 3); nb[j].h = 0.7;
    mn = std::min(mn, (double)nb[j].Wprim[var]); mx = std::max(mx, (double)nb[j].Wprim[var]); }
  lim.CellLimiter(p, nb);
  for (int v = 0; v < ndim + 2; v++) { gs_check_le("factor-not-negative", 0.0, p.alpha_slope[v], 1); gs_check_le("factor-at-most-one", p.alpha_slope[v], 1.0, 1); }
  FLOAT gradW[ndim + 2][ndim], dW[ndim + 2], dr[ndim];
  const double f = edge ? 0.5 : 1.0;
  for (int j = 0; j < N; j++) {
    for (int k = 0; k < ndim; k++) dr[k] = f * (nb[j].r[k] - p.r[k]);
    lim.ComputeLimitedSlopes(p, nb[j], dr, gradW, dW);
    for (int v = 0; v < ndim + 2; v++) for (int k = 0; k < ndim; k++) gs_check_close("limited-gradient-is-scaled", gradW[v][k], p.alpha_slope[v] * p.grad[v][k], 3);
    double w = p.Wprim[var] + dW[var];
    if (kind != 4) { gs_check_close("slope-matches-gradient", dW[var], p.alpha_slope[var] * DotProduct(p.grad[var], dr, ndim), 10); }
    gs_check_le("not-above-neighbourhood-maximum", w, mx, 1); gs_check_le("not-below-neighbourhood-minimum", mn, w, 1);
    if (kind == 0) { gs_check_le("pairwise-maximum", w, std::max(p.Wprim[var], nb[j].Wprim[var]), 1); gs_check_le("pairwise-minimum", std::min(p.Wprim[var], nb[j].Wprim[var]), w, 1); }
    for (int v = 0; v < ndim + 2; v++) if (v != var) gs_check_close("constant-field-stays-constant", dW[v], 0.0, 1);
  }
  if (kind == 1) { // anywhere within the kernel/neighbour radius, worst direction is along the gradient
    double g = sqrt(DotProduct(p.grad[var], p.grad[var], ndim)), R = f * 2 * p.h; gs_assume(g > 1e-3);
    for (int k = 0; k < ndim; k++) dr[k] = R * p.grad[var][k] / g;
    if (N) { lim.ComputeLimitedSlopes(p, nb[0], dr, gradW, dW); gs_check_le("within-kernel-maximum", p.Wprim[var] + dW[var], mx, 1); gs_check_le("within-kernel-minimum", mn, p.Wprim[var] - dW[var], 1); }
  }
  gs_cover("limited");
}
template <int ndim> void gizmo() {
  GizmoLimiter<ndim> lim; vector<P<ndim> > nb(1); P<ndim> p; const int var = 0; char b[16];
  for (int v = 0; v < ndim + 2; v++) { p.Wprim[v] = nb[0].Wprim[v] = 1; for (int k = 0; k < ndim; k++) p.grad[v][k] = v ? 0.3 : 0.0; p.alpha_slope[v] = 0; }
  p.Wprim[var] = gs_real("W", -3, 3); nb[0].Wprim[var] = gs_real("W0", -3, 3); p.alpha_slope[var] = gs_real("alpha", 0, 1);
  FLOAT dr[ndim], gradW[ndim + 2][ndim], dW[ndim + 2];
  for (int k = 0; k < ndim; k++) { sprintf(b, "g%d", k); p.grad[var][k] = gs_real(b, -3, 3); p.r[k] = 0; sprintf(b, "x%d", k); nb[0].r[k] = k ? 0.0 : gs_real(b, 0.1, 2); dr[k] = 0.5 * nb[0].r[k]; }
  lim.ComputeLimitedSlopes(p, nb[0], dr, gradW, dW);
  double w = p.Wprim[var] + dW[var], Wi = p.Wprim[var], Wj = nb[0].Wprim[var], d = fabs(Wi - Wj), w0 = Wi + p.alpha_slope[var] * DotProduct(p.grad[var], dr, ndim);
  // pairwise limiter: overshoots its own side by at most half the difference, and stops before the other side
  gs_check_le("face-value-overshoot", w, std::max(Wi, Wj) + 0.5 * d, 1); gs_check_le("face-value-undershoot", std::min(Wi, Wj) - 0.5 * d, w, 1);
  if (Wi < Wj) { gs_check_le("face-value-not-past-other-side", w, Wj, 1); if (Wi > 0) gs_check_le("positive-stays-positive", 0.0, w, 1); }
  if (Wi > Wj) gs_check_le("face-value-not-past-other-side", Wj, w, 1);
  if (Wi == Wj) gs_check_close("equal-values-no-slope", dW[var], 0.0, 1);
  double t = (w - Wi) * (w0 - Wi); if (Wi != Wj) gs_cover(t >= 0 ? "same-direction" : "reversed");
  for (int v = 1; v < ndim + 2; v++) gs_check_close("constant-field-stays-constant", dW[v], 0.0, 1);
  for (int k = 0; k < ndim; k++) gs_check_close("limited-gradient-is-scaled", gradW[var][k], p.alpha_slope[var] * p.grad[var][k], 3);
}
template <int ndim> void simple() { // zero and null limiter
  P<ndim> p; vector<P<ndim> > nb(1); char b[16]; FLOAT dr[ndim], gradW[ndim + 2][ndim], dW[ndim + 2];
  for (int k = 0; k < ndim; k++) { sprintf(b, "d%d", k); dr[k] = gs_real(b, -2, 2); p.r[k] = 0; nb[0].r[k] = 2 * dr[k]; }
  for (int v = 0; v < ndim + 2; v++) { sprintf(b, "W%d", v); p.Wprim[v] = gs_real(b, -3, 3); sprintf(b, "V%d", v); nb[0].Wprim[v] = gs_real(b, -3, 3); for (int k = 0; k < ndim; k++) { sprintf(b, "g%d%d", v, k); p.grad[v][k] = gs_real(b, -3, 3); } }
  ZeroSlopeLimiter<ndim> z; z.CellLimiter(p, nb); z.ComputeLimitedSlopes(p, nb[0], dr, gradW, dW);
  for (int v = 0; v < ndim + 2; v++) { gs_check("zero-limiter-no-slope", dW[v] == 0.0); for (int k = 0; k < ndim; k++) gs_check("zero-limiter-no-gradient", gradW[v][k] == 0.0); }
  NullLimiter<ndim> n; n.CellLimiter(p, nb); n.ComputeLimitedSlopes(p, nb[0], dr, gradW, dW);
  for (int v = 0; v < ndim + 2; v++) { gs_check_close("null-limiter-full-slope", dW[v], DotProduct(p.grad[v], dr, ndim), 10); for (int k = 0; k < ndim; k++) gs_check_close("null-limiter-full-gradient", gradW[v][k], p.grad[v][k], 3); }
  gs_cover("simple");
}
template <int ndim> void go(const char* l, bool e, int N) {
  if (!strcmp(l, "tvd")) { TVDScalarLimiter<ndim> x(e); run<ndim>(x, 0, e, N); }
  if (!strcmp(l, "scalar")) { ScalarLimiter<ndim> x(e); run<ndim>(x, 1, e, N); }
  if (!strcmp(l, "springel")) { Springel2009Limiter<ndim> x(e); run<ndim>(x, 2, e, N); }
  if (!strcmp(l, "gizmo")) { if (N) { GizmoLimiter<ndim> x; run<ndim>(x, 4, true, N); } else gizmo<ndim>(); }
  if (!strcmp(l, "simple")) simple<ndim>();
}
extern "C" void gs_main() {
  char l[16]; int d, e, n; if (sscanf(gs_arg(), "%15[a-z]-%d-%d-%d", l, &d, &e, &n) != 4) return;
  if (d == 1) go<1>(l, e, n); if (d == 2) go<2>(l, e, n); if (d == 3) go<3>(l, e, n);
}
