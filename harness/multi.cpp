// Q03: monopole and quadrupole forces of distant cells, directly and through the fast (Taylor-expanded) estimate
#include "gsym.h"
#include "hydrostub.h"
#include "NeighbourSearch.h"
#include "TreeCell.h"
#include "Sph.h"
static Parameters P;
// the expansion, spelled out: q holds the packed tensor xx, xy, yy, zx, zy
template <int n> void tensor(const double* q, double Q[3][3]) { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) Q[a][b] = 0; Q[0][0] = q[0]; if (n > 1) { Q[0][1] = Q[1][0] = q[1]; Q[1][1] = q[2]; } if (n > 2) { Q[2][0] = Q[0][2] = q[3]; Q[2][1] = Q[1][2] = q[4]; Q[2][2] = -q[0] - q[2]; } }
template <int n> void textbook(const MultipoleMoment<n>& c, const double* rp, bool quad, double* a, double& pot) { double x[3], Q[3][3]; for (int k = 0; k < n; k++) x[k] = rp[k] - c.r[k]; double d2 = dot<n>(x, x), u = 1 / d2, w = sqrt(u), s = 0, Qx[3] = {0, 0, 0}; tensor<n>(c.q, Q);
  if (quad) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Qx[i] += Q[i][j] * x[j]; s += x[i] * Q[i][j] * x[j]; } pot = c.m * w + 0.5 * s * u * u * w; for (int k = 0; k < n; k++) a[k] = -c.m * x[k] * u * w + Qx[k] * u * u * w - 2.5 * s * u * u * u * w * x[k]; }
template <int n> MultipoleMoment<n> moment(int i, bool quad) { MultipoleMoment<n> c; c.m = Sg("m", i, 0, 0.1, 10); c.id = i + 1; for (int k = 0; k < n; k++) c.r[k] = (k == 0 ? (i ? -4 : 4) : 0) + Sg("c", i, k, -1, 1); for (int k = 0; k < 5; k++) c.q[k] = quad && k < (n == 3 ? 5 : n == 2 ? 3 : 1) ? Sg("q", i, k, -2, 2) : 0.5 + k; return c; }
template <int n> void direct(bool quad) { MultipoleMoment<n> c[2]; int N = gs_choose("cells", 3); for (int i = 0; i < N; i++) c[i] = moment<n>(i, quad); double rp[n], a[n], g = gs_real("pot", -1, 1), g0 = g, a0[n]; for (int k = 0; k < n; k++) { rp[k] = Sg("p", 0, k, -1, 1); a0[k] = a[k] = Sg("a", 0, k, -1, 1); }
  if (quad) ComputeCellQuadrupoleForces<n>(g, a, rp, N, c); else ComputeCellMonopoleForces<n>(g, a, rp, N, c); for (int i = 0; i < N; i++) { double t[n], u; textbook<n>(c[i], rp, quad, t, u); g0 += u; for (int k = 0; k < n; k++) a0[k] += t[k]; }
  gs_check_close("potential-of-cells", g, g0, 10); for (int k = 0; k < n; k++) gs_check_close("acceleration-of-cells", a[k], a0[k], 10);
  if (N == 1) for (int k = 0; k < n; k++) { double x0 = rp[k], z = 0, zz[n]; double d = gs_derivative([&](double x) { rp[k] = x; for (int j = 0; j < n; j++) zz[j] = 0; z = 0; if (quad) ComputeCellQuadrupoleForces<n>(z, zz, rp, N, c); else ComputeCellMonopoleForces<n>(z, zz, rp, N, c); rp[k] = x0; return z; }, x0, 1e-4); if (!quad) { gs_check_close("force-is-gradient-of-potential", a[k] - a0[k] + d, d, 10); double t[n], u; textbook<n>(c[0], rp, quad, t, u); gs_check_close("force-is-gradient-of-potential", t[k], d, 10); } else { double t[n], u; textbook<n>(c[0], rp, quad, t, u); gs_check_close("force-is-gradient-of-potential", t[k], d, 10); } }
  gs_cover(N ? "summed" : "none"); }
template <int n> void fast(bool quad) { P.intparams["hydro_forces"] = 1; P.stringparams["dust_forces"] = "none"; ParticleTypeRegister types(&P); MultipoleMoment<n> c[2]; int N = gs_choose("cells", 2) + 1; for (int i = 0; i < N; i++) c[i] = moment<n>(i, quad); bool fixed = quad && N == 2 && n > 1; static const double G[2][2][3] = {{{3, 4, 0}, {-6, 8, 0}}, {{2, 3, 6}, {-4, 4, -7}}};
  TreeCellBase<n> cell; cell.id = 0; for (int k = 0; k < n; k++) { cell.r[k] = fixed ? 0.5 * k : Sg("p", 0, k, -1, 1); if (fixed) for (int i = 0; i < 2; i++) c[i].r[k] = cell.r[k] + G[n - 2][i][k]; cell.rcell[k] = cell.r[k] + 0.3; } GradhSphParticle<n> p[3]; double a0[3][n], g0[3], off[n];
  for (int i = 0; i < 3; i++) { p[i].ptype = gas_type; g0[i] = p[i].gpot = Sg("pot", i, 0, -1, 1); for (int k = 0; k < n; k++) { double o = i == 1 ? Sg("off", i, k, -0.5, 0.5) : 0; if (i == 1) off[k] = o; p[i].r[k] = cell.r[k] + o; a0[i][k] = p[i].atree[k] = Sg("a", i, k, -1, 1); } } p[2].ptype = boundary_type; types[boundary_type].self_gravity = false;
  if (quad) ComputeFastQuadrupoleForces<n, GradhSphParticle>(3, N, c, cell, p, types); else ComputeFastMonopoleForces<n, GradhSphParticle>(3, N, c, cell, p, types);
  gs_check_close("no-gravity-on-other-types", p[2].gpot, g0[2], 1); for (int k = 0; k < n; k++) gs_check_close("no-gravity-on-other-types", p[2].atree[k], a0[2][k], 1);
  double at[n], pt = 0, J[n][n]; for (int k = 0; k < n; k++) { at[k] = 0; for (int j = 0; j < n; j++) J[k][j] = 0; }
  for (int i = 0; i < N; i++) { double t[n], u; textbook<n>(c[i], cell.r, quad, t, u); pt += u; for (int k = 0; k < n; k++) at[k] += t[k];
    for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) { if (fixed) { double x[3], Q[3][3], Qx[3] = {0, 0, 0}, s = 0; for (int l = 0; l < n; l++) x[l] = cell.r[l] - c[i].r[l]; tensor<n>(c[i].q, Q); for (int l = 0; l < n; l++) for (int o = 0; o < n; o++) { Qx[l] += Q[l][o] * x[o]; s += x[l] * Q[l][o] * x[o]; } double u = 1 / dot<n>(x, x), w = sqrt(u); J[k][j] += -c[i].m * w * u * ((k == j) - 3 * x[k] * x[j] * u) + Q[k][j] * u * u * w - 5 * (Qx[k] * x[j] + Qx[j] * x[k]) * u * u * u * w - 2.5 * s * ((k == j) - 7 * x[k] * x[j] * u) * u * u * u * w; continue; } double r[n]; for (int l = 0; l < n; l++) r[l] = cell.r[l]; J[k][j] += gs_derivative([&](double x) { r[j] = x; double tt[n], uu; textbook<n>(c[i], r, quad, tt, uu); return tt[k]; }, cell.r[j], 1e-4); } }
  gs_check_close("potential-at-the-centre", p[0].gpot, g0[0] + pt, 10); for (int k = 0; k < n; k++) gs_check_close("acceleration-at-the-centre", p[0].atree[k], a0[0][k] + at[k], 10);
  double dp = 0; for (int k = 0; k < n; k++) { double da = at[k]; dp += at[k] * off[k]; for (int j = 0; j < n; j++) da += J[k][j] * off[j]; gs_check_close("linear-expansion-of-the-acceleration", p[1].atree[k], a0[1][k] + da, 10); } gs_check_close("linear-expansion-of-the-potential", p[1].gpot, g0[1] + pt + dp, 10); gs_cover("fast"); }
extern "C" void gs_main() { char a[32]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int d = atoi(strtok(NULL, "-")); bool q = atoi(strtok(NULL, "-")); if (!strcmp(f, "direct")) { if (d == 1) direct<1>(q); if (d == 2) direct<2>(q); if (d == 3) direct<3>(q); } else { if (d == 1) fast<1>(q); if (d == 2) fast<2>(q); if (d == 3) fast<3>(q); } }
