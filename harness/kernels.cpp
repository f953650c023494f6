// K01, K02: smoothing kernels
#include "gsym.h"
#include "SmoothingKernel.h"
#include "Constants.h"

// K01: w1 = dW/ds, womega = -(ndim W + s dW/ds), W>=0, w1<=0, compact support, continuity, normalisation
template <int ndim, class K> void shape(K& k, double norm) {
  const double R = k.kernrange;
  gs_check_close("invkernrange", k.invkernrange * R, 1.0, 1.0);
  gs_check_close("kernrangesqd", k.kernrangesqd, R * R, R * R);
  double s = gs_real("s", 0.0, 4.0);
  double w = k.w0(s), g = k.w1(s), om = k.womega(s);
  const double sc = k.w0(0.0);
  gs_check_le("w0-nonnegative", 0.0, w, sc);
  gs_check_le("w1-nonpositive", g, 0.0, sc);
  gs_check_close("womega-identity", om, -(ndim * w + s * g), sc);
  gs_check_close("w0_s2", k.w0_s2(s * s), w, sc);
  gs_check_close("womega_s2", k.womega_s2(s * s), om, sc);
  if (s >= R) { gs_check("support", w == 0.0 && g == 0.0 && om == 0.0); gs_cover("outside"); return; }
  gs_cover("inside");
  double d = gs_derivative([&](double x) { return k.w0(x); }, s, 1e-3);
  gs_check_close("w1-is-derivative", g, d, 100 * sc);
}
// piecewise-continuity and exact normalisation: integrate the polynomial pieces symbolically through Gauss-Legendre
// nodes (exact for the degrees involved)
template <int ndim, class K> void integral(K& k, double (*gx)[2], int n, const double* br, int nbr, const char* lab, double tolscale) {
  double tot = 0;
  for (int b = 0; b + 1 < nbr; b++) { double a = br[b], c = br[b + 1];
    for (int i = 0; i < n; i++) { double s = 0.5 * (a + c) + 0.5 * (c - a) * gx[i][0]; double J = ndim == 1 ? 2.0 : ndim == 2 ? 2 * M_PI * s : 4 * M_PI * s * s; tot += 0.5 * (c - a) * gx[i][1] * J * k.w0(s); } }
  if (strcmp(lab, "normalised-to-truncation") == 0) { gs_check(lab, tot > 0.9995 && tot < 1.00001); return; }
  gs_check_close(lab, tot, 1.0, tolscale);
}
template <class K> void cont(K& k, double b, const char* lab) {
  double e = gs_real("eps", 0.0, 1e-9); const double sc = k.w0(0.0);
  gs_check_close(lab, k.w0(b - e), k.w0(b + e), sc);
  gs_check_close(lab, k.w1(b - e), k.w1(b + e), sc);
  gs_check_close(lab, k.womega(b - e), k.womega(b + e), sc);
}
static double G[8][2] = {{-0.9602898564975363, 0.1012285362903763}, {-0.7966664774136267, 0.2223810344533745}, {-0.5255324099163290, 0.3137066458778873}, {-0.1834346424956498, 0.3626837833783620}, {0.1834346424956498, 0.3626837833783620}, {0.5255324099163290, 0.3137066458778873}, {0.7966664774136267, 0.2223810344533745}, {0.9602898564975363, 0.1012285362903763}};
static const double B[5] = {0, 1, 2, 3, 4};

// K02: wgrav = -dwpot/ds, enclosed mass M(s) = s^2 wgrav with dM/ds = 4 pi s^2 w0, Newtonian outside,
//      wzeta = d(phi)/dh kernel: wzeta = wpot + s dwpot/ds = wpot - s wgrav, monotone enclosed mass
template <class K> void grav(K& k) {
  const double R = k.kernrange;
  double s = gs_real("s", 0.01, 4.0);
  double g = k.wgrav(s), p = k.wpot(s), z = k.wzeta(s);
  gs_check_close("wzeta-identity", z, s >= R ? 0.0 : p - s * g, 1.0);
  gs_check_close("wzeta_s2", k.wzeta_s2(s * s), z, 1.0);
  if (s >= R) { gs_check_close("newton-force", g * s * s, 1.0, 1.0); gs_check_close("newton-pot", p * s, 1.0, 1.0); gs_cover("outside"); return; }
  gs_cover("inside");
  gs_check_close("force-is-minus-grad-pot", g, -gs_derivative([&](double x) { return k.wpot(x); }, s, 1e-4), 100.0);
  gs_check_close("gauss-law", gs_derivative([&](double x) { return x * x * k.wgrav(x); }, s, 1e-4), 4 * pi * s * s * k.w0(s), 100.0);
  gs_check_le("force-attractive", 0.0, g, 1.0);
  gs_check_le("enclosed-mass<=1", s * s * g, 1.0, 1.0);
  gs_check_le("softened-pot<=newton", p * s, 1.0, 1.0);
}
template <class K> void gcont(K& k, double b, const char* lab) {
  double e = gs_real("eps", 0.0, 1e-9);
  gs_check_close(lab, k.wgrav(b - e), k.wgrav(b + e), 1.0); gs_check_close(lab, k.wpot(b - e), k.wpot(b + e), 1.0); gs_check_close(lab, k.wzeta(b - e), k.wzeta(b + e), 1.0);
}

template <int ndim> void m4() { M4Kernel<ndim> k("m4");
  switch (gs_choose("part", 4)) { case 0: shape<ndim>(k, 1.0); break; case 1: cont(k, 1.0, "continuous-1"); break; case 2: cont(k, 2.0, "continuous-2"); break;
    case 3: integral<ndim>(k, G, 8, B, 3, "normalised", 1.0); } }
template <int ndim> void quintic() { QuinticKernel<ndim> k("quintic");
  switch (gs_choose("part", 5)) { case 0: shape<ndim>(k, 1.0); break; case 1: cont(k, 1.0, "continuous-1"); break; case 2: cont(k, 2.0, "continuous-2"); break; case 3: cont(k, 3.0, "continuous-3"); break;
    case 4: integral<ndim>(k, G, 8, B, 4, "normalised", 1.0); } }
template <int ndim> void gauss() { GaussianKernel<ndim> k("gaussian");
  switch (gs_choose("part", 2)) { case 0: shape<ndim>(k, 1.0); break; case 1: { integral<ndim>(k, G, 8, B, 4, "normalised-to-truncation", 1.0); } } }

extern "C" void gs_main() {
  if (gs_is("m4-1")) m4<1>(); if (gs_is("m4-2")) m4<2>(); if (gs_is("m4-3")) m4<3>();
  if (gs_is("quintic-1")) quintic<1>(); if (gs_is("quintic-2")) quintic<2>(); if (gs_is("quintic-3")) quintic<3>();
  if (gs_is("gauss-1")) gauss<1>(); if (gs_is("gauss-2")) gauss<2>(); if (gs_is("gauss-3")) gauss<3>();
  if (gs_is("grav-m4")) { M4Kernel<3> k("m4"); switch (gs_choose("part", 3)) { case 0: grav(k); break; case 1: gcont(k, 1.0, "gcontinuous-1"); break; case 2: gcont(k, 2.0, "gcontinuous-2"); } }
  if (gs_is("grav-quintic")) { QuinticKernel<3> k("quintic"); switch (gs_choose("part", 4)) { case 0: grav(k); break; case 1: gcont(k, 1.0, "gcontinuous-1"); break; case 2: gcont(k, 2.0, "gcontinuous-2"); break; case 3: gcont(k, 3.0, "gcontinuous-3"); } }
}
