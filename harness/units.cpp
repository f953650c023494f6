// U01 unit scaling; G02 external potentials
#include "gsym.h"
#include "Constants.h"
#include "Parameters.h"
#include "SimUnits.h"
#include "ExternalPotential.h"
template <int n> VerticalPotential<n>::~VerticalPotential() {}
template <int n> PlummerPotential<n>::~PlummerPotential() {}
template <int n> SilccPotential<n>::~SilccPotential() {}
struct US { const char* key; const char* u[11]; double si[11]; int m, r, t; double cgs; };
static const double G = 6.67384E-11, pc = 3.08568025E16, au = 1.49597870E11, ms = 1.98892e30, yr_ = 3.1556952E7;
// name, SI value of each unit, dimension mass^m length^r time^t, cgs units in one SI unit
static const US tab[] = {
 {"r", {"mpc", "kpc", "pc", "au", "r_sun", "r_earth", "km", "m", "cm", ""}, {1e6 * pc, 1e3 * pc, pc, au, 6.955e8, r_earth, 1e3, 1, 1e-2, 1}, 0, 1, 0, 100},
 {"m", {"m_sun", "m_jup", "m_earth", "kg", "g", ""}, {0, 1.8986e27, 5.9736e24, 1, 1e-3, 1}, 1, 0, 0, 1000},
 {"t", {"gyr", "myr", "yr", "day", "s", ""}, {1e9 * yr_, 1e6 * yr_, yr_, 86400, 1, 1}, 0, 0, 1, 1},
 {"v", {"km_s", "au_yr", "m_s", "cm_s", ""}, {1e3, au / yr_, 1, 1e-2, 1}, 0, 1, -1, 100},
 {"a", {"km_s2", "au_yr2", "m_s2", "cm_s2", ""}, {1e3, au / yr_ / yr_, 1, 1e-2, 1}, 0, 1, -2, 100},
 {"rho", {"m_sun_pc3", "kg_m3", "g_cm3", ""}, {0, 1, 1e3, 1}, 1, -3, 0, 1e-3},
 {"sigma", {"m_sun_pc2", "kg_m2", "g_cm2", ""}, {0, 1, 10, 1}, 1, -2, 0, 0.1},
 {"press", {"Pa", "bar", ""}, {1, 1e5, 1}, 1, -1, -2, 10},
 {"f", {"N", "dyn", ""}, {1, 1e-5, 1}, 1, 1, -2, 1e5},
 {"E", {"J", "erg", "GJ", "10^40erg", ""}, {1, 1e-7, 1e9, 1e33, 1}, 1, 2, -2, 1e7},
 {"mom", {"m_sunkm_s", "m_sunau_yr", "kgm_s", "gcm_s", ""}, {0, 0, 1, 1e-5, 1}, 1, 1, -1, 1e5},
 {"angmom", {"m_sunkm2_s", "m_sunau2_yr", "kgm2_s", "gcm2_s", ""}, {0, 0, 1, 1e-7, 1}, 1, 2, -1, 1e7},
 {"angvel", {"rad_s", ""}, {1, 1}, 0, 0, -1, 1},
 {"dmdt", {"m_sun_myr", "m_sun_yr", "kg_s", "g_s", ""}, {0, 0, 1, 1e-3, 1}, 1, 0, -1, 1e3},
 {"L", {"L_sun", "W", "erg_s", ""}, {0, 1, 1e-7, 1}, 1, 2, -3, 1e7},
 {"kappa", {"m2_kg", "cm2_g", ""}, {1, 0.1, 1}, -1, 2, 0, 10},
 {"u", {"J_kg", "erg_g", ""}, {1, 1e-4, 1}, 0, 2, -2, 1e4},
 {"dudt", {"J_kg_s", "erg_g_s", ""}, {1, 1e-4, 1}, 0, 2, -3, 1e4},
 {"temp", {"K", ""}, {1, 1}, 0, 2, -2, 1}};
static const int NT = sizeof tab / sizeof tab[0];
static int cnt(const US& u) { int n = 0; while (u.u[n] && *u.u[n]) n++; return n; }
static SimUnit* unit(SimUnits& s, int i) { SimUnit* l[] = {&s.r, &s.m, &s.t, &s.v, &s.a, &s.rho, &s.sigma, &s.press, &s.f, &s.E, &s.mom, &s.angmom, &s.angvel, &s.dmdt, &s.L, &s.kappa, &s.u, &s.dudt, &s.temp}; return l[i]; }
static double usi(const US& u, int k) { double s = u.si[k]; const char* n = u.u[k]; if (s) return s;
  if (!strcmp(n, "m_sun")) return m_sun; if (!strcmp(n, "m_sun_pc3")) return m_sun / (pc * pc * pc); if (!strcmp(n, "m_sun_pc2")) return m_sun / (pc * pc); if (!strcmp(n, "m_sunkm_s")) return m_sun * 1e3; if (!strcmp(n, "m_sunau_yr")) return m_sun * au / yr_;
  if (!strcmp(n, "m_sunkm2_s")) return m_sun * 1e6; if (!strcmp(n, "m_sunau2_yr")) return m_sun * au * au / yr_; if (!strcmp(n, "m_sun_myr")) return m_sun / (1e6 * yr_); if (!strcmp(n, "m_sun_yr")) return m_sun / yr_; if (!strcmp(n, "L_sun")) return L_sun; return 0; }
static void convert(SimUnit& u, double x, double cgs) {
  gs_check_close("input-roundtrip", u.Code_to_InputUnits(u.Input_to_CodeUnits(x)), x, 1); gs_check_close("input-roundtrip", u.Input_to_CodeUnits(u.Code_to_InputUnits(x)), x, 1);
  gs_check_close("output-roundtrip", u.Code_to_OutputUnits(u.Output_to_CodeUnits(x)), x, 1); gs_check_close("output-roundtrip", u.Output_to_CodeUnits(u.Code_to_OutputUnits(x)), x, 1);
  gs_check_close("SI-roundtrip", u.SI_to_CodeUnits(u.Code_to_SIUnits(x)), x, 1); gs_check_close("cgs-roundtrip", u.CGS_to_CodeUnits(u.Code_to_CGSUnits(x)), x, 1);
  gs_check_close("input-scale-applied", u.Code_to_InputUnits(x) / u.inscale, x, 1); gs_check_close("output-scale-applied", u.Code_to_OutputUnits(x) / u.outscale, x, 1);
  gs_check_close("SI-scale-applied", u.Code_to_SIUnits(x) / (u.outscale * u.outSI), x, 1); gs_check_close("cgs-against-SI", u.Code_to_CGSUnits(x) / (u.outscale * u.outSI * cgs), x, 1); }
static void scales() {
  Parameters p; SimUnits s; int nr = cnt(tab[0]), nm = cnt(tab[1]), ro = gs_choose("r", nr), mo = gs_choose("m", nm), k = gs_choose("shift", 6), in[32], out[32]; bool rd = gs_choose("ReadInputUnits", 2); double x = gs_real("x", -100, 100);
  for (int i = 0; i < NT; i++) { int n = cnt(tab[i]); out[i] = i == 0 ? ro : i == 1 ? mo : k % n; in[i] = i == 0 ? (ro + k) % nr : i == 1 ? (mo + k) % nm : (k + 1) % n; if (!rd) in[i] = out[i];
    p.stringparams[string(tab[i].key) + "outunit"] = tab[i].u[out[i]]; p.stringparams[string(tab[i].key) + "inunit"] = rd ? tab[i].u[in[i]] : "junk"; }
  s.ReadInputUnits = rd; p.intparams["dimensionless"] = 0; s.SetupUnits(&p);
  double R = usi(tab[0], ro), M = usi(tab[1], mo), T = sqrt(R * R * R / (G * M));
  gs_check_close("G-is-one", G * M * T * T / (R * R * R), 1, 1);
  for (int i = 0; i < NT; i++) { SimUnit& u = *unit(s, i); double d = pow(M, tab[i].m) * pow(R, tab[i].r) * pow(T, tab[i].t); if (!strcmp(tab[i].key, "temp")) d *= m_hydrogen / k_boltzmann; char l[64];
    sprintf(l, "output-scale-has-its-dimension-%s", tab[i].key); gs_check_close(l, u.outscale * u.outSI / d, 1, 1); sprintf(l, "input-scale-has-its-dimension-%s", tab[i].key); gs_check_close(l, u.inscale * u.inSI / d, 1, 1);
    sprintf(l, "SI-value-%s", tab[i].key); gs_check_close(l, u.outSI / usi(tab[i], out[i]), 1, 1); gs_check_close(l, u.inSI / usi(tab[i], in[i]), 1, 1);
    sprintf(l, "cgs-value-%s", tab[i].key); gs_check_close(l, u.outcgs / (u.outSI * tab[i].cgs), 1, 1);
    gs_check("unit-names-kept", u.inunit == tab[i].u[in[i]] && u.outunit == tab[i].u[out[i]]);
    gs_check_close("requested-output-scale", u.OutputScale(tab[i].u[in[i]]) / u.inscale, 1, 1); }
  convert(*unit(s, k * 3), x, tab[k * 3].cgs); convert(*unit(s, k * 3 + 1), x, tab[k * 3 + 1].cgs); convert(*unit(s, k * 3 + 2), x, tab[k * 3 + 2].cgs); gs_cover("scaled"); }
static void conv() { SimUnits s; int i = gs_choose("unit", NT); SimUnit& u = *unit(s, i); double x = gs_real("x", -1e6, 1e6); u.inscale = gs_real("inscale", 1e-6, 1e6); u.outscale = gs_real("outscale", 1e-6, 1e6); u.outSI = gs_real("outSI", 1e-6, 1e6); u.outcgs = u.outSI * tab[i].cgs; convert(u, x, tab[i].cgs); gs_cover("converted"); }
static void nodim() { Parameters p; SimUnits s; p.intparams["dimensionless"] = 1; s.SetupUnits(&p); double x = gs_real("x", -1e6, 1e6); for (int i = 0; i < NT; i++) { SimUnit& u = *unit(s, i); gs_check("dimensionless-is-identity", u.Code_to_InputUnits(x) == x && u.Input_to_CodeUnits(x) == x && u.Code_to_OutputUnits(x) == x && u.Output_to_CodeUnits(x) == x); } gs_cover("dimensionless"); }
static void labels() { SimUnits s; for (int i = 0; i < NT; i++) { int n = cnt(tab[i]); for (int k = 0; k <= n; k++) { SimUnit& u = *unit(s, i); gs_check("label-for-every-unit", k == n ? u.LatexLabel(tab[i].u[k]).empty() : !u.LatexLabel(tab[i].u[k]).empty()); gs_check_close("value-of-every-unit", u.SIUnit(tab[i].u[k]) / usi(tab[i], k), 1, 1); } } gs_cover("labels"); }
// ---------------------------------------------------------------- G02
template <int n> void pots() {
  double r[n], v[n], a[n], j[n], a0[n], j0[n], pot, p0; char b[16]; const double tt = 0;
  for (int k = 0; k < n; k++) { sprintf(b, "r%d", k); r[k] = gs_real(b, -4, 4); sprintf(b, "v%d", k); v[k] = gs_real(b, -4, 4); sprintf(b, "a%d", k); a0[k] = a[k] = gs_real(b, -4, 4); sprintf(b, "j%d", k); j0[k] = j[k] = gs_real(b, -4, 4); } p0 = pot = gs_real("pot", -4, 4);
  int w = gs_choose("potential", 4); ExternalPotential<n>* e; double M = gs_real("M", 0.1, 10), R = gs_real("R", 0.1, 3), g = gs_real("g", -5, 5); SimUnits su; double pf = 1;
  if (w == 0) e = new NullPotential<n>(); else if (w == 1) e = new VerticalPotential<n>(gs_choose("dir", n), g, M); else if (w == 2) { e = new PlummerPotential<n>(M, R); pf = 2; } else e = new SilccPotential<n>(M, R, su);
  e->AddExternalPotential(r, v, a, j, pot);
  auto field = [&](const double* x, double* o, double& ph) { double jj[n]; ph = 0; for (int k = 0; k < n; k++) o[k] = jj[k] = 0; e->AddExternalPotential(x, v, o, jj, ph); };
  double a1[n], p1; field(r, a1, p1);
  for (int k = 0; k < n; k++) { gs_check_close("adds-to-the-acceleration", a[k], a0[k] + a1[k], 100);
    double d = gs_derivative([&](double x) { double y[n], o[n], ph; for (int i = 0; i < n; i++) y[i] = r[i]; y[k] = x; field(y, o, ph); return ph; }, r[k], 1e-3);
    gs_check_close("force-is-gradient-of-potential", a1[k] * pf, d, 1000); double dj = 0;
    for (int i = 0; i < n; i++) dj += v[i] * gs_derivative([&](double x) { double y[n], o[n], ph; for (int q = 0; q < n; q++) y[q] = r[q]; y[i] = x; field(y, o, ph); return o[k]; }, r[i], 1e-3);
    gs_check_close("jerk-is-time-derivative-of-force", j[k] - j0[k], dj, 10000); }
  gs_check_close("adds-to-the-potential", pot, p0 + p1, 100);
  if (w == 1) { int q = ((VerticalPotential<n>*)e)->kgrav; for (int k = 0; k < n; k++) gs_check_close("uniform-field", a1[k], k == q ? g : 0.0, 10); gs_check_close("potential-zero-height", p1, g * (r[q] - M), 100); gs_cover("vertical"); }
  if (w == 2) { double s = 0, ar = 0; for (int k = 0; k < n; k++) { s += r[k] * r[k]; ar += a1[k] * r[k]; } gs_check_le("plummer-attracts", ar, 0.0, 1); double q = s + R * R; gs_check_close("plummer-force-law", ar * ar * q * q * q, M * M * s * s, 1e5); gs_cover("plummer"); }
  if (w == 0) { for (int k = 0; k < n; k++) gs_check("null-adds-nothing", a[k] == a0[k] && j[k] == j0[k]); gs_check("null-adds-nothing", pot == p0); gs_cover("null"); }
}
extern "C" void gs_main() { if (gs_is("scales")) scales(); if (gs_is("conv")) conv(); if (gs_is("nodim")) nodim(); if (gs_is("labels")) labels(); if (gs_is("pot-1")) pots<1>(); if (gs_is("pot-2")) pots<2>(); if (gs_is("pot-3")) pots<3>(); }
