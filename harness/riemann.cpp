// R01 HLLC, R02 exact Riemann solver, R03 viscous flux
#include "gsym.h"
#include "RiemannSolver.h"
#include "Constants.h"
#ifdef ANYSTAR
// ComputeFluxes over any solution of the one-dimensional problem: the star region and the sampled state at the face are arbitrary.
#include <cassert>
static double AP, AD, AU, AS; static int asked;
#define ANY(n) template <> void ExactRiemannSolver<n>::ComputeStarRegion(const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, FLOAT& p, FLOAT& u) { p = AP; u = AS; } \
  template <> void ExactRiemannSolver<n>::SampleExactSolution(const FLOAT, const FLOAT, const FLOAT s, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT ul, const FLOAT ur, FLOAT& p, FLOAT& d, FLOAT& u);
ANY(1) ANY(2) ANY(3)
#define SMP(n) template <> void ExactRiemannSolver<n>::SampleExactSolution(const FLOAT ps, const FLOAT us, const FLOAT s, const FLOAT pl, const FLOAT pr, const FLOAT dl, const FLOAT dr, const FLOAT cl, const FLOAT cr, const FLOAT ul, const FLOAT ur, FLOAT& p, FLOAT& d, FLOAT& u) { asked++; \
  gs_check("samples-at-the-face", s == 0.0); gs_check("samples-with-the-star-state", ps == AP && us == AS); Args[0] = pl; Args[1] = pr; Args[2] = dl; Args[3] = dr; Args[4] = cl; Args[5] = cr; Args[6] = ul; Args[7] = ur; p = AP; d = AD; u = AU; }
static double Args[8]; SMP(1) SMP(2) SMP(3)
#include "Hydrodynamics/RiemannSolver.cpp"
#endif

template <int ndim> void unitvec(double* n) {
  if (ndim == 1) { n[0] = gs_choose("sign", 2) ? 1.0 : -1.0; return; }
  if (ndim == 2) { n[0] = gs_real("nx", -1, 1); double s = sqrt(1.0 - n[0] * n[0]); n[1] = gs_choose("sign", 2) ? s : -s; return; }
  n[0] = gs_real("nx", -0.7, 0.7); n[1] = gs_real("ny", -0.7, 0.7); double s = sqrt(1.0 - n[0] * n[0] - n[1] * n[1]); n[2] = gs_choose("sign", 2) ? s : -s;
}
// axis-aligned or general direction
static int dirmode = 0; // 1: axis-aligned only
template <int ndim> void direction(double* n) {
  int w = dirmode && ndim > 1 ? 1 : gs_choose("dir", 2);
  if (w == 0 || ndim == 1) { unitvec<ndim>(n); if (w && ndim == 1) gs_end(); return; }
  int a = gs_choose("axis", 2 * ndim); for (int k = 0; k < ndim; k++) n[k] = k == a / 2 ? (a % 2 ? -1.0 : 1.0) : 0.0;
}
template <int ndim> void state(double* W, const char* tag) {
  char b[8]; for (int k = 0; k < ndim; k++) { sprintf(b, "v%s%d", tag, k); W[k] = gs_real(b, -3, 3); }
  sprintf(b, "d%s", tag); W[ndim] = gs_real(b, 0.1, 10); sprintf(b, "p%s", tag); W[ndim + 1] = gs_real(b, 0.1, 10);
}
template <int ndim> double dotn(const double* a, const double* b) { double s = 0; for (int k = 0; k < ndim; k++) s += a[k] * b[k]; return s; }
// physical flux through a face with normal n moving with velocity vf; W velocities are measured in the face frame
template <int ndim> void physflux(const double* W, const double* n, const double* vf, double gamma, bool iso, double* F) {
  double lab[ndim], wn = dotn<ndim>(W, n), e = 0, vn = 0; for (int k = 0; k < ndim; k++) { lab[k] = W[k] + vf[k]; }
  e = 0.5 * W[ndim] * dotn<ndim>(lab, lab) + (iso ? W[ndim + 1] : W[ndim + 1] / (gamma - 1)); vn = dotn<ndim>(lab, n);
  for (int k = 0; k < ndim; k++) F[k] = W[ndim] * lab[k] * wn + W[ndim + 1] * n[k];
  F[ndim] = W[ndim] * wn; F[ndim + 1] = e * wn + W[ndim + 1] * vn;
}
template <int ndim> void checkflux(const char* lab, const double (*f)[ndim], const double* F, const double* n, double sc) {
  for (int i = 0; i < ndim + 2; i++) for (int j = 0; j < ndim; j++) gs_check_close(lab, f[i][j], F[i] * n[j], sc);
}
template <int ndim> void vface(double* v) { char b[8]; for (int k = 0; k < ndim; k++) { sprintf(b, "w%d", k); v[k] = gs_real(b, -2, 2); } }
template <int ndim> void hllcCheck(int what, bool zmf, bool iso) {
  double n[ndim], vf[ndim], L[ndim + 2], R[ndim + 2]; const double gamma = iso ? 1.0 : 1.4;
  HllcRiemannSolver<ndim> rs(gamma, zmf, iso);
  direction<ndim>(n); vface<ndim>(vf); state<ndim>(L, "l");
  double f[ndim + 2][ndim], F[ndim + 2], vf2[ndim]; for (int k = 0; k < ndim; k++) vf2[k] = vf[k];
  double dn[ndim]; 
  if (what == 0) { // consistency
    rs.ComputeFluxes(L, L, n, vf2, f);
    if (!zmf) { physflux<ndim>(L, n, vf, gamma, iso, F); checkflux<ndim>("identical-states-give-physical-flux", f, F, n, 100); for (int k = 0; k < ndim; k++) gs_check_close("face-velocity-unchanged", vf2[k], vf[k], 1); }
    else { // contact frame: face moves with the gas along the normal
      double wn = dotn<ndim>(L, n), u[ndim]; for (int k = 0; k < ndim; k++) { u[k] = vf[k] + wn * n[k]; gs_check_close("face-moves-with-gas", vf2[k], u[k], 10); }
      double un = dotn<ndim>(u, n); for (int k = 0; k < ndim; k++) F[k] = L[ndim + 1] * n[k]; F[ndim] = 0; F[ndim + 1] = L[ndim + 1] * un; checkflux<ndim>("identical-states-give-pressure-flux", f, F, n, 100); }
    gs_cover("consistency"); return; }
  state<ndim>(R, "r");
  if (what == 1) { // exchange of sides
    double g[ndim + 2][ndim], m[ndim], vf3[ndim]; for (int k = 0; k < ndim; k++) { m[k] = -n[k]; vf3[k] = vf[k]; }
    rs.ComputeFluxes(L, R, n, vf2, f); rs.ComputeFluxes(R, L, m, vf3, g);
    for (int i = 0; i < ndim + 2; i++) for (int j = 0; j < ndim; j++) gs_check_close("exchanging-sides-and-normal-gives-same-flux", f[i][j], g[i][j], 100);
    for (int k = 0; k < ndim; k++) gs_check_close("exchanging-sides-face-velocity", vf2[k], vf3[k], 10);
    gs_cover("exchange"); return; }
  double ln = dotn<ndim>(L, n), rn = dotn<ndim>(R, n), cl = sqrt(gamma * L[ndim + 1] / L[ndim]), cr = sqrt(gamma * R[ndim + 1] / R[ndim]);
  if (what == 2) { // supersonic: upwind (left) flux.  The fastest left-going signal: Roe average or left state
    gs_assume(!zmf); gs_assume(ln > cl);
    double s = sqrt(R[ndim] / L[ndim]), a = 1 / (1 + s), b = 1 - a, dv2 = 0; for (int k = 0; k < ndim; k++) dv2 += (L[k] - R[k]) * (L[k] - R[k]);
    double g1 = iso ? 0 : gamma - 1; double c2 = a * cl * cl + b * cr * cr + 0.5 * a * b * g1 * dv2, va = a * ln + b * rn;
    gs_assume(va > 0); gs_assume(va * va > c2);
    rs.ComputeFluxes(L, R, n, vf2, f); physflux<ndim>(L, n, vf, gamma, iso, F); checkflux<ndim>("supersonic-flux-is-upwind", f, F, n, 100); gs_cover("supersonic"); return; }
  if (what == 3) { // zero-mass-flux option
    rs.ComputeFluxes(L, R, n, vf2, f);
    for (int j = 0; j < ndim; j++) { gs_check("no-mass-crosses", f[ndim][j] == 0.0); if (iso) continue; for (int i = 0; i < ndim; i++) for (int k = 0; k < ndim; k++) gs_check_close("momentum-flux-is-normal", f[i][j] * n[k], f[k][j] * n[i], 100);
      double w = 0; for (int i = 0; i < ndim; i++) w += f[i][j] * vf2[i]; gs_check_close("energy-flux-is-work-of-momentum-flux", f[ndim + 1][j], w, 100); }
    double dn = 0; for (int k = 0; k < ndim; k++) { dn += (vf2[k] - vf[k]) * n[k]; }
    for (int k = 0; k < ndim; k++) gs_check_close("face-shift-is-normal", vf2[k] - vf[k], dn * n[k], 10);
    gs_cover("zero-mass-flux"); return; }
  if (what == 4) { // moving observer: adding u to the face velocity transforms the lab fluxes
    double u[ndim], g[ndim + 2][ndim], vf3[ndim]; for (int k = 0; k < ndim; k++) { char b[8]; sprintf(b, "u%d", k); u[k] = gs_real(b, -2, 2); vf3[k] = vf[k] + u[k]; }
    rs.ComputeFluxes(L, R, n, vf2, f); rs.ComputeFluxes(L, R, n, vf3, g);
    double uu = dotn<ndim>(u, u);
    for (int j = 0; j < ndim; j++) { double uf = 0; for (int k = 0; k < ndim; k++) { gs_check_close("momentum-flux-transforms", g[k][j], f[k][j] + u[k] * f[ndim][j], 100); uf += u[k] * f[k][j]; }
      gs_check_close("mass-flux-invariant", g[ndim][j], f[ndim][j], 100); gs_check_close("energy-flux-transforms", g[ndim + 1][j], f[ndim + 1][j] + uf + 0.5 * uu * f[ndim][j], 100); }
    gs_cover("galilean"); return; }
  if (what == 5) { // subsonic star region (contact at rest in the frame of the face via zmf=true): normal momentum flux equals a pressure
    // between: both Rankine-Hugoniot conditions with one contact speed fix p*; check through the zmf solver against the moving one
    HllcRiemannSolver<ndim> rz(gamma, true, iso); double g[ndim + 2][ndim], vz[ndim]; for (int k = 0; k < ndim; k++) vz[k] = vf[k];
    rz.ComputeFluxes(L, R, n, vz, g); double sm = 0; for (int k = 0; k < ndim; k++) sm += (vz[k] - vf[k]) * n[k];
    double L2[ndim + 2], R2[ndim + 2], v3[ndim]; for (int k = 0; k < ndim + 2; k++) { L2[k] = L[k]; R2[k] = R[k]; } for (int k = 0; k < ndim; k++) { L2[k] -= sm * n[k]; R2[k] -= sm * n[k]; v3[k] = vf[k] + sm * n[k]; }
    rs.ComputeFluxes(L2, R2, n, v3, f);
    for (int j = 0; j < ndim; j++) { gs_check_close("contact-frame-mass-flux-vanishes", f[ndim][j], 0.0, 100); for (int k = 0; k < ndim; k++) gs_check_close("contact-frame-momentum-agrees", f[k][j], g[k][j], 100); gs_check_close("contact-frame-energy-agrees", f[ndim + 1][j], g[ndim + 1][j], 100); }
    gs_cover("contact-frame"); }
}

// ------------------------------------------------------------------ R02
template <int ndim> void rotation() {
  ExactRiemannSolver<ndim> rs(1.4, false); double n[ndim], R[ndim][ndim], I[ndim][ndim]; direction<ndim>(n);
  rs.ComputeRotationMatrices(n, R, I);
  for (int i = 0; i < ndim; i++) for (int j = 0; j < ndim; j++) { double a = 0, b = 0; for (int k = 0; k < ndim; k++) { a += I[i][k] * R[k][j]; b += R[k][i] * R[k][j]; } double d = i == j ? 1.0 : 0.0; gs_check_close("rotation-inverse", a, d, 1); gs_check_close("rotation-orthonormal", b, d, 1); }
  double v[ndim], w[ndim]; for (int k = 0; k < ndim; k++) { char b[8]; sprintf(b, "v%d", k); v[k] = w[k] = gs_real(b, -3, 3); }
  rs.RotateVector(I, w); gs_check_close("first-component-is-normal", w[0], dotn<ndim>(v, n), 10);
  rs.RotateVector(R, w); for (int k = 0; k < ndim; k++) gs_check_close("rotate-back", w[k], v[k], 10);
  double e[ndim]; for (int k = 0; k < ndim; k++) e[k] = k ? 0.0 : 1.0; rs.RotateVector(R, e); for (int k = 0; k < ndim; k++) gs_check_close("x-axis-goes-to-normal", e[k], n[k], 1);
  gs_cover("rotated");
}
// velocity jump across a wave from a state (P, D) to pressure ps, ideal gas
static double wavejump(double g, double ps, double P, double D, double c) {
  if (ps > P) return (ps - P) * sqrt(2 / ((g + 1) * D) / (ps + (g - 1) / (g + 1) * P));
  return 2 * c / (g - 1) * (pow(ps / P, (g - 1) / (2 * g)) - 1);
}
static void sample(double gamma) {
  ExactRiemannSolver<1> rs(gamma, false); const double g = gamma, gm = g - 1, gp = g + 1;
  double dl = gs_real("dl", 0.1, 10), dr = gs_real("dr", 0.1, 10), pl = gs_real("pl", 0.1, 10), pr = gs_real("pr", 0.1, 10), ps = gs_real("pstar", 0.01, 30), us = gs_real("ustar", -3, 3), s = gs_real("s", -10, 10);
  double cl = sqrt(g * pl / dl), cr = sqrt(g * pr / dr);
  double ul = us + wavejump(g, ps, pl, dl, cl), ur = us - wavejump(g, ps, pr, dr, cr);
  double p = 0, d = 0, u = 0; rs.SampleExactSolution(ps, us, s, pl, pr, dl, dr, cl, cr, ul, ur, p, d, u);
  gs_check("sampled-pressure-positive", p > 0); gs_check("sampled-density-positive", d > 0);
  // mirror
  double p2, d2, u2; gs_assume(s != us);
  rs.SampleExactSolution(ps, -us, -s, pr, pl, dr, dl, cr, cl, -ur, -ul, p2, d2, u2);
  gs_check_close("mirror-pressure", p, p2, 10); gs_check_close("mirror-density", d, d2, 10); gs_check_close("mirror-velocity", u, -u2, 10);
  bool left = s <= us; double sg = left ? -1 : 1, P = left ? pl : pr, Dn = left ? dl : dr, c = left ? cl : cr, U = left ? ul : ur;
  double S = sg * s, V = sg * U, us1 = sg * us; // mirrored so that the wave moves to the right
  if (ps > P) { double sh = V + c * sqrt(gp / (2 * g) * (ps / P) + gm / (2 * g));
    if (S > sh) { gs_check("outside-shock-undisturbed", p == P && d == Dn && u == U); gs_cover("outside-shock"); }
    else if (S < sh) { gs_check("behind-shock-star-state", p == ps && u == us); double m = (sh - V); // mass flux / D:  D m = d (sh - u*)
      gs_check_close("shock-density", d * (gm / gp * ps / P + 1), Dn * (ps / P + gm / gp), 100);
      // momentum jump: ps - P = D m^2 (1 - D/d)
      gs_check_close("shock-momentum-jump", (ps - P) * d, Dn * m * m * (d - Dn), 1000); gs_cover("behind-shock"); } }
  else if (ps < P) { if (S > V + c) { gs_check("outside-fan-undisturbed", p == P && d == Dn && u == U); gs_cover("outside-fan"); }
    else { bool star = u == us && p == ps;
      if (star) { gs_check_close("star-isentropic", pow(d / Dn, gamma), ps / P, 1); gs_cover("star-behind-fan"); }
      else { double cc = S - sg * u; // sound speed in fan: u + c = s
        gs_check_close("fan-riemann-invariant", sg * u - 2 * cc / gm, V - 2 * c / gm, 10);
        gs_check_close("fan-sound-speed", pow(fabs(cc) / c, 2 / gm), d / Dn, 1); gs_cover("in-fan"); } } }
}
static void star(double gamma) { // Newton iteration: residual and mirror symmetry
  ExactRiemannSolver<1> rs(gamma, false); int w = gs_choose("case", 3);
  double dl = gs_real("dl", 0.1, 10), pl = gs_real("pl", 0.1, 10), ul = gs_real("ul", -1, 1), cl = sqrt(gamma * pl / dl), ps, us;
  if (w == 0) { rs.ComputeStarRegion(pl, pl, dl, dl, cl, cl, ul, ul, ps, us); gs_check_close("identical-states-pstar", ps, pl, 10); gs_check_close("identical-states-ustar", us, ul, 10); gs_cover("identical"); return; }
  if (w == 1) { double dr = gs_real("dr", 0.1, 10); rs.ComputeStarRegion(pl, pl, dl, dr, cl, sqrt(gamma * pl / dr), ul, ul, ps, us); gs_check_close("contact-pstar", ps, pl, 10); gs_check_close("contact-ustar", us, ul, 10); gs_cover("contact"); return; }
  double a, b, dr = gs_real("dr", 0.1, 10), pr = gs_real("pr", 0.1, 10), ur = gs_real("ur", -1, 1), cr = sqrt(gamma * pr / dr);
  rs.ComputeStarRegion(pl, pr, dl, dr, cl, cr, ul, ur, ps, us); rs.ComputeStarRegion(pr, pl, dr, dl, cr, cl, -ur, -ul, a, b);
  gs_check_close("star-mirror-pressure", ps, a, 10); gs_check_close("star-mirror-velocity", us, -b, 10); gs_check("pstar-nonnegative", ps >= 0);
  gs_cover("mirror");
}
template <int ndim> void exflux(bool zmf) {
  ExactRiemannSolver<ndim> rs(1.4, zmf); double n[ndim], vf[ndim], vf2[ndim], W[ndim + 2], f[ndim + 2][ndim], F[ndim + 2]; direction<ndim>(n); vface<ndim>(vf); state<ndim>(W, "l"); for (int k = 0; k < ndim; k++) vf2[k] = vf[k];
  rs.ComputeFluxes(W, W, n, vf2, f);
  double lab[ndim]; double wn = dotn<ndim>(W, n), un = dotn<ndim>(vf2, n), e = 0;
  if (!zmf) { for (int k = 0; k < ndim; k++) lab[k] = W[k] + vf[k]; physflux<ndim>(W, n, vf, 1.4, false, F);
    // the flux tensor dotted with the normal is the flux through the face
    for (int i = 0; i < ndim + 2; i++) { double a = 0; for (int j = 0; j < ndim; j++) a += f[i][j] * n[j]; gs_check_close("exact-identical-states-flux", a, F[i], 100); } }
  else { for (int j = 0; j < ndim; j++) gs_check_close("exact-no-mass-crosses", f[ndim][j], 0.0, 10); double a = 0;
    for (int i = 0; i < ndim; i++) { double a = 0; for (int j = 0; j < ndim; j++) a += f[i][j] * n[j]; gs_check_close("exact-zmf-momentum", a, W[ndim + 1] * n[i], 100); } for (int j = 0; j < ndim; j++) a += f[ndim + 1][j] * n[j];
    gs_check_close("exact-zmf-energy", a, W[ndim + 1] * (dotn<ndim>(vf, n) + wn), 100); }
  gs_cover("exact-flux");
}
#ifdef ANYSTAR
template <int ndim> void anystar(bool zmf) { // the lab-frame flux of whatever state is sampled at the face
  ExactRiemannSolver<ndim> rs(1.4, zmf); double n[ndim], vf[ndim], vf2[ndim], L[ndim + 2], R[ndim + 2], f[ndim + 2][ndim], W[ndim + 2], F[ndim + 2]; direction<ndim>(n); vface<ndim>(vf); state<ndim>(L, "l"); state<ndim>(R, "r"); for (int k = 0; k < ndim; k++) vf2[k] = vf[k];
  AP = gs_real("pstar", 0.1, 10); AD = gs_real("dstar", 0.1, 10); bool left = gs_choose("side", 2); AU = gs_real("ustar", 0.01, 3); if (!left) AU = -AU; AS = 1.25 * AU; asked = 0; rs.ComputeFluxes(L, R, n, vf2, f);
  double ln = dotn<ndim>(L, n), rn = dotn<ndim>(R, n); gs_check("samples-once", asked >= 1); gs_check("left-and-right-states-passed-on", Args[0] == L[ndim + 1] && Args[1] == R[ndim + 1] && Args[2] == L[ndim] && Args[3] == R[ndim]); gs_check_close("normal-velocities-passed-on", Args[6], ln, 10); gs_check_close("normal-velocities-passed-on", Args[7], rn, 10); gs_check_close("sound-speeds-passed-on", Args[4] * Args[4] * L[ndim], 1.4 * L[ndim + 1], 10); gs_check_close("sound-speeds-passed-on", Args[5] * Args[5] * R[ndim], 1.4 * R[ndim + 1], 10);
  const double* U = left ? L : R; double un = left ? ln : rn; for (int k = 0; k < ndim; k++) W[k] = U[k] + (AU - un) * n[k]; W[ndim] = AD; W[ndim + 1] = AP;
  if (!zmf) { physflux<ndim>(W, n, vf, 1.4, false, F); for (int k = 0; k < ndim; k++) gs_check_close("face-velocity-unchanged", vf2[k], vf[k], 1); for (int i = 0; i < ndim + 2; i++) { double a = 0; for (int j = 0; j < ndim; j++) a += f[i][j] * n[j]; gs_check_close("flux-of-the-upwind-state", a, F[i], 1000); } }
  else { double w = 0; for (int k = 0; k < ndim; k++) { double x = vf[k] + AU * n[k]; w += x * n[k]; gs_check_close("face-moves-with-contact", vf2[k], x, 10); } for (int i = 0; i < ndim + 2; i++) { double a = 0; for (int j = 0; j < ndim; j++) a += f[i][j] * n[j]; gs_check_close("pressure-flux-of-the-contact", a, i < ndim ? AP * n[i] : i == ndim ? 0.0 : AP * w, 100); } }
  gs_cover("any-star"); }
#endif
// ------------------------------------------------------------------ R03
template <int ndim> void visc(int what) {
  double ns = gs_real("nu_s", 0, 2), nb = gs_real("nu_b", 0, 2); ViscousFlux<ndim> vfx(ns, nb);
  double L[ndim + 2], R[ndim + 2], gl[ndim][ndim], gr[ndim][ndim], f[ndim + 2][ndim], g[ndim + 2][ndim]; char b[8]; state<ndim>(L, "l"); state<ndim>(R, "r");
  for (int i = 0; i < ndim; i++) for (int j = 0; j < ndim; j++) { sprintf(b, "gl%d%d", i, j); gl[i][j] = gs_real(b, -2, 2); sprintf(b, "gr%d%d", i, j); gr[i][j] = gs_real(b, -2, 2); }
  auto zero = [&](double (*x)[ndim]) { for (int i = 0; i < ndim + 2; i++) for (int j = 0; j < ndim; j++) x[i][j] = 0; };
  zero(f); zero(g); const double S = 1000;
  if (what == 0) { vfx.ComputeViscousFlux(L, R, gl, gr, f); vfx.ComputeViscousFlux(R, L, gr, gl, g);
    double rho = 0.5 * (L[ndim] + R[ndim]);
    for (int i = 0; i < ndim + 2; i++) for (int j = 0; j < ndim; j++) gs_check_close("exchange-symmetric", f[i][j], g[i][j], S);
    double tr = 0, div = 0; for (int i = 0; i < ndim; i++) { tr += f[i][i]; div += 0.5 * (gl[i][i] + gr[i][i]); for (int j = 0; j < ndim; j++) gs_check_close("stress-symmetric", f[i][j], f[j][i], S); gs_check("no-mass-carried", f[ndim][i] == 0.0); }
    if (ndim == 3) gs_check_close("trace-is-bulk-only", tr, -3 * nb * rho * div, S);
    for (int i = 0; i < ndim; i++) for (int j = 0; j < ndim; j++) if (i != j) gs_check_close("shear-stress", f[i][j], -ns * rho * 0.5 * (gl[i][j] + gr[i][j] + gl[j][i] + gr[j][i]), S);
    for (int i = 0; i < ndim; i++) gs_check_close("normal-stress", f[i][i], -rho * (ns * (gl[i][i] + gr[i][i]) + (nb - 2. * ns / 3.) * div), S);
    for (int j = 0; j < ndim; j++) { double w = 0; for (int i = 0; i < ndim; i++) w += f[i][j] * 0.5 * (L[i] + R[i]); gs_check_close("energy-flux-is-work", f[ndim + 1][j], w, S); }
    // dissipation: stress contracted with the gradient is never negative heating
    double q = 0; for (int i = 0; i < ndim; i++) for (int j = 0; j < ndim; j++) q -= f[i][j] * 0.5 * (gl[i][j] + gr[i][j]); if (ndim == 3 || ndim == 1) gs_check_le("viscous-heating-nonnegative", 0.0, q, 1.0);
    gs_cover("general"); }
  if (what == 1) { // rigid rotation + translation: antisymmetric gradient
    for (int i = 0; i < ndim; i++) for (int j = 0; j <= i; j++) { gl[i][j] = i == j ? 0.0 : -gl[j][i]; gr[i][j] = i == j ? 0.0 : -gr[j][i]; }
    vfx.ComputeViscousFlux(L, R, gl, gr, f); for (int i = 0; i < ndim + 2; i++) for (int j = 0; j < ndim; j++) gs_check_close("rigid-motion-no-flux", f[i][j], 0.0, S); gs_cover("rigid"); }
  if (what == 2) { // linear: scaling all gradients scales the added flux, and the flux is added to what is there
    double a = gs_real("a", -2, 2), hl[ndim][ndim], hr[ndim][ndim]; for (int i = 0; i < ndim; i++) for (int j = 0; j < ndim; j++) { hl[i][j] = a * gl[i][j]; hr[i][j] = a * gr[i][j]; }
    for (int i = 0; i < ndim + 2; i++) for (int j = 0; j < ndim; j++) g[i][j] = 1.5; vfx.ComputeViscousFlux(L, R, gl, gr, f); vfx.ComputeViscousFlux(L, R, hl, hr, g);
    for (int i = 0; i < ndim + 2; i++) for (int j = 0; j < ndim; j++) gs_check_close("linear-and-additive", g[i][j] - 1.5, a * f[i][j], S); gs_cover("linear"); }
}
extern "C" void gs_main() {
  int d = 0, w = 0, z = 0, i = 0; const char* a = gs_arg(); if (a[0] == 'a' && a[1] == '-') { dirmode = 1; a += 2; }
  if (sscanf(a, "hllc-%d-%d-%d-%d", &d, &w, &z, &i) == 4) { if (d == 1) hllcCheck<1>(w, z, i); if (d == 2) hllcCheck<2>(w, z, i); if (d == 3) hllcCheck<3>(w, z, i); return; }
  if (sscanf(a, "rot-%d", &d) == 1) { if (d == 1) rotation<1>(); if (d == 2) rotation<2>(); if (d == 3) rotation<3>(); return; }
  if (gs_is("sample-53")) sample(5.0 / 3.0); if (gs_is("sample-14")) sample(1.4); if (gs_is("star-14")) star(1.4); if (gs_is("star-53")) star(5.0 / 3.0);
  if (sscanf(a, "exflux-%d-%d", &d, &z) == 2) { if (d == 1) exflux<1>(z); if (d == 2) exflux<2>(z); if (d == 3) exflux<3>(z); return; }
#ifdef ANYSTAR
  if (sscanf(a, "any-%d-%d", &d, &z) == 2) { if (d == 1) anystar<1>(z); if (d == 2) anystar<2>(z); if (d == 3) anystar<3>(z); return; }
#endif
  if (sscanf(a, "visc-%d", &d) == 1) { w = gs_choose("what", 3); if (d == 1) visc<1>(w); if (d == 2) visc<2>(w); if (d == 3) visc<3>(w); }
}
