// D01: drag between dust and gas
#include "gsym.h"
#include "hydrostub.h"
#include "Dust.h"
#include "DragLaws.h"
#ifdef MFVG
#include "MeshlessFV.h"
#include "MfvNeighbourSearch.h"
template <int n> struct Kind { typedef MeshlessFVParticle<n> Part; typedef MeshlessFVTree<n, MeshlessFVParticle> Search; typedef DustFactory<n, MeshlessFVParticle> Factory; };
#define ARRAY(s) (s)->template GetParticleArray<MeshlessFVParticle>()
#else
#include "Sph.h"
#include "SphNeighbourSearch.h"
template <int n> struct Kind { typedef GradhSphParticle<n> Part; typedef GradhSphTree<n, GradhSphParticle> Search; typedef DustFactory<n, GradhSphParticle> Factory; };
#define ARRAY(s) (s)->template GetParticleArray<GradhSphParticle>()
#endif
static Parameters P; static SimUnits U; static CodeTiming TM; static int OPT = 0, LAW = 0;
enum { ISO = 1, MATCHED = 2, THREE = 4, DEADONE = 8, DKD = 16, PERIODIC = 32, FREE = 64, STIFF = 128 };
static const char* LAWS[4] = {"fixed", "density", "epstein", "LP2012"};
static const double X[3][3] = {{0.25, 0.125, -0.0625}, {0.625, 0.125, -0.0625}, {0.0625, 0.3125, 0.25}};
template <int n> struct World { typedef typename Kind<n>::Part Part; Hydrodynamics<n>* s; typename Kind<n>::Search* ns; DustBase<n>* d; Part* p; DomainBox<n> box; M4Kernel<n> kern; int N; double K, dt;
  World(const char* mode, int NP) : kern("m4"), N(NP) { double hfac = mode[0] == 't' ? 0.5 : 1.2; P.intparams["hydro_forces"] = 1; P.stringparams["dust_forces"] = mode; P.stringparams["drag_law"] = LAWS[LAW]; P.stringparams["kernel"] = "m4"; P.intparams["tabulated_kernel"] = 0; P.intparams["dimensionless"] = 1; P.intparams["Nlevels"] = 1; P.floatparams["h_fac"] = hfac; P.floatparams["h_converge"] = 0.01; P.stringparams["eos"] = (OPT & ISO) ? "isothermal" : "energy_eqn"; P.stringparams["sph_integration"] = (OPT & DKD) ? "lfdkd" : "lfkdk"; P.floatparams["drag_coeff"] = K = (OPT & STIFF) ? gs_real("K", 0.25, 300) : 2; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; P.intparams["create_sinks"] = 0; P.intparams["zero_mass_flux"] = 0; P.intparams["static_particles"] = 0; P.stringparams["riemann_solver"] = "exact"; P.stringparams["slope_limiter"] = "null"; P.stringparams["viscosity_option"] = "none";
#ifdef MFVG
    P.stringparams["sim"] = "mfvmuscl"; s = new MfvMuscl<n, M4Kernel, NullLimiter<n> >(1, 0, 0.5, 0.5, 1.2, 0.01, 1.4, "energy_eqn", "m4", sizeof(Part), U, &P);
#else
    P.stringparams["sim"] = "sph"; s = new GradhSph<n, M4Kernel>(1, 0, 1, 2, 1.2, 0.01, mon97, noac, notdav, "energy_eqn", "m4", U, &P);
#endif
    s->AllocateMemory(N + 10); s->Nhydro = s->Ntot = N; s->kernrange = 2; for (int k = 0; k < n; k++) { box.min[k] = -2; box.max[k] = 2; box.size[k] = 4; box.half[k] = 2; if (OPT & PERIODIC) box.boundary_lhs[k] = box.boundary_rhs[k] = periodicBoundary; } box.PeriodicGravity = 0; ns = new typename Kind<n>::Search("kdtree", 3, 1, 1, 1, 0.49, 2.0, 0.01, "geometric", "monopole", &box, &kern, &TM, s->types); d = Kind<n>::Factory::ProcessParameters(&P, &TM, U, s->types, box, ns->tree, ns->ghosttree, NULL); dt = 0.125; p = ARRAY(s);
    for (int i = 0; i < N; i++) { Part& q = p[i]; q.iorig = i; q.ptype = i == 1 ? dust_type : gas_type; q.flags.set(active); q.m = i ? 0.75 : 1; if (OPT & FREE) q.m = Sg("m", i, 0, 0.5, 2); q.h = i == 1 ? 0.375 : 0.5 + 0.0625 * i; q.rho = (OPT & FREE) ? Sg("rho", i, 0, 0.5, 3) : 1.5 - 0.25 * i; q.sound = i == 1 ? 0 : LAW == 2 && mode[0] == 't' ? 1 + 0.125 * i : Sg("cs", i, 0, 0.5, 2); q.u = 1; q.dt = dt; q.dt_next = (OPT & DKD) ? 1 : dt; q.nstep = 1; q.hrangesqd = 4 * q.h * q.h;
      for (int k = 0; k < n; k++) { q.r[k] = X[i][k] + (k == 0 && (OPT & PERIODIC) ? (i == 1 ? -2.5 : 1.5) : 0); if (q.r[k] < -2) q.r[k] += 4; if (q.r[k] > 2) q.r[k] -= 4; q.r0[k] = q.r[k]; q.v[k] = Sg("v", i, k, -2, 2); q.v0[k] = Sg("v0", i, k, -2, 2); q.a[k] = Sg("a", i, k, -2, 2); q.a0[k] = Sg("a0", i, k, -2, 2); }
#ifdef MFVG
      for (int k = 0; k < n + 2; k++) { q.Qcons0[k] = 0; q.dQ[k] = k == n ? (i == 1 ? 0 : 0.125 * q.m) : Sg("dQ", i, k, -1, 1); q.dQdt[k] = Sg("dQdt", i, k, -1, 1); } q.Qcons0[n] = q.m - q.dQ[n]; for (int k = 0; k < n; k++) { q.Qcons0[k] = q.Qcons0[n] * q.v0[k]; q.r0[k] = q.r[k] - 0.0625; }
#endif
    } }
  // velocity at the start of the kick and acceleration without drag
#ifdef MFVG
  double vs(Part& q, int k) { return q.v0[k]; } double as(Part& q, int k) { return 0.5 * (q.a[k] + q.a0[k] * q.Qcons0[n] / q.m) + q.dQ[k] / (q.m * dt); }
#else
  double vs(Part& q, int k) { return q.v[k] - 0.5 * dt * q.a0[k]; } double as(Part& q, int k) { return q.a[k]; }
#endif
  void go() { ns->BuildTree(true, 0, 1, 1, dt, s); ns->SearchBoundaryGhostParticles(0, box, s); p = ARRAY(s); for (int i = 0; i < N; i++) p[i].flags.set(active); ns->UpdateActiveParticleCounters(s); if (OPT & PERIODIC) ns->BuildGhostTree(true, 0, 1, 1, dt, s); if (OPT & DEADONE) { p[N - 1].flags.set(dead); p[N - 1].m = 0; } } };
// what drag did to particle i: acceleration and heating
template <int n> struct Did { double a[n], q; Did(World<n>& w, typename Kind<n>::Part& o, typename Kind<n>::Part& q_) { double v0 = 0;
#ifdef MFVG
    q = (q_.dQ[n + 1] - o.dQ[n + 1]) / (o.m * w.dt); for (int k = 0; k < n; k++) { a[k] = (q_.dQ[k] - o.dQ[k]) / (o.m * w.dt); q -= a[k] * (w.vs(o, k) + w.as(o, k) * w.dt + 0.5 * a[k] * w.dt); gs_check_close("rates-match-the-step", q_.dQdt[k] - o.dQdt[k], o.m * a[k], 10); } gs_check_close("rates-match-the-step", q_.dQdt[n + 1] - o.dQdt[n + 1], (q_.dQ[n + 1] - o.dQ[n + 1]) / w.dt, 10); if (o.ptype == dust_type) { q = 0; gs_check_close("dust-holds-no-thermal-energy", q_.dQ[n + 1], o.dQ[n + 1], 10); }
    for (int k = 0; k < n; k++) { gs_check_close("position-follows-the-dragged-momentum", q_.r[k], o.r0[k] + 0.5 * w.dt * (o.v0[k] + (o.Qcons0[n] * o.v0[k] + q_.dQ[k] + 0.5 * (o.Qcons0[n] + o.m) * o.a0[k] * w.dt) / o.m), 1); }
#else
    for (int k = 0; k < n; k++) { a[k] = q_.a[k] - o.a[k]; gs_check("only-the-acceleration-changes", q_.r[k] == o.r[k] && q_.v[k] == o.v[k] && q_.a0[k] == o.a0[k] && q_.v0[k] == o.v0[k]); } q = q_.dudt - o.dudt; if (o.ptype == dust_type) gs_check("dust-holds-no-thermal-energy", q_.dudt == o.dudt);
#endif
    gs_check("mass-and-type-untouched", q_.m == o.m && q_.ptype == o.ptype && q_.rho == o.rho && q_.h == o.h); } };
// exact velocity difference left after a time dt with constant relative acceleration and linear drag
static double left(double dv, double da, double ts, double dt) { double e = exp(-dt / ts); return dv * e + da * ts * (1 - e); }
static double tstop(double K, double rg, double rd, double cs) { return LAW == 0 ? 1 / K : LAW == 1 ? 1 / (K * (rg + rd)) : LAW == 2 ? 0.75 * sqrt(M_PI / 8) / (K * (rg + rd) * cs) : rg * rd / (K * (rg + rd)); }
template <int n> static void full() { int NP = (OPT & THREE) ? 3 : 2; World<n> w("full_twofluid", NP); typedef typename Kind<n>::Part Part; Part* p = w.p; double wd = n * pow(1 / p[0].h, n) * w.kern.wdrag(0.375 / p[0].h); if (OPT & MATCHED) for (int i = 0; i < 2; i++) p[i].rho = wd * p[i].m; w.go(); p = w.p; Part old[3]; for (int i = 0; i < NP; i++) old[i] = p[i]; w.d->UpdateAllDragForces(w.s); p = ARRAY(w.s); double F[3] = {0, 0, 0}, L[3] = {0, 0, 0}, E = 0; Did<n>* did[3];
  for (int i = 0; i < NP; i++) { Did<n>& d = *(did[i] = new Did<n>(w, old[i], p[i])); double x[3] = {0, 0, 0}, f[3] = {0, 0, 0}; for (int k = 0; k < n; k++) { f[k] = old[i].m * d.a[k]; x[k] = old[i].r[k]; if ((OPT & PERIODIC) && k == 0 && x[0] > 0) x[k] -= 4; F[k] += f[k]; E += f[k] * (w.vs(old[i], k) + w.as(old[i], k) * w.dt + 0.5 * d.a[k] * w.dt); } E += old[i].m * d.q; for (int k = 0; k < 3; k++) L[k] += x[(k + 1) % 3] * f[(k + 2) % 3] - x[(k + 2) % 3] * f[(k + 1) % 3]; }
  for (int k = 0; k < n; k++) gs_check_close("momentum-exchanged-equally", F[k], 0, 10); if (n > 1) for (int k = n == 3 ? 0 : 2; k < 3; k++) gs_check_close("angular-momentum-conserved", L[k], 0, 10); if (OPT & ISO) {
#ifndef MFVG
    for (int i = 0; i < NP; i++) gs_check("no-heating-at-fixed-temperature", did[i]->q == 0);
#endif
  } else gs_check_close("lost-kinetic-energy-heats-the-gas", E, 0, 20);
  if (OPT & MATCHED) { double ts = tstop(w.K, old[0].rho, old[1].rho, old[0].sound); for (int k = 0; k < n; k++) { double dv = w.vs(old[0], k) - w.vs(old[1], k), da = w.as(old[0], k) - w.as(old[1], k), got = dv + (da + did[0]->a[k] - did[1]->a[k]) * w.dt; if (k == 0 && (OPT & STIFF)) { double e = exp(-w.dt / ts), none = dv + da * w.dt; gs_check_close("exact-solution-of-the-drag-equation", got, dv * e + da * ts * (1 - e), 3); if (w.dt / ts > 0.01) gs_cover("not-weak"); } else if (k == 0) gs_check_close("exact-solution-of-the-drag-equation", got, left(dv, da, ts, w.dt), 3); else gs_check_close("only-the-approach-is-damped", got, dv + da * w.dt, 10); } gs_cover("matched"); } gs_cover("exchange"); }
template <int n> static void damp() { OPT |= MATCHED | STIFF; World<n> w("full_twofluid", 2); typedef typename Kind<n>::Part Part; Part* p = w.p; double wd = n * pow(1 / p[0].h, n) * w.kern.wdrag(0.375 / p[0].h), over = gs_real("dilution", 1, 8); for (int i = 0; i < 2; i++) { p[i].rho = over * wd * p[i].m; for (int k = 0; k < n; k++) { p[i].a[k] = p[i].a0[k] = 0;
#ifdef MFVG
      p[i].dQ[k] = 0;
#endif
    } } w.go(); p = w.p; Part old[2]; for (int i = 0; i < 2; i++) old[i] = p[i]; w.d->UpdateAllDragForces(w.s); p = ARRAY(w.s); Did<n> d0(w, old[0], p[0]), d1(w, old[1], p[1]); double dv = w.vs(old[0], 0) - w.vs(old[1], 0), got = dv + (d0.a[0] - d1.a[0]) * w.dt; if (dv > 0) { gs_check_le("never-reverses", -got, 0, 10); gs_check_le("never-grows", got, dv, 10); } else { gs_check_le("never-reverses", got, 0, 10); gs_check_le("never-grows", dv, got, 10); } gs_check_le("drag-only-heats", -d0.q, 0, 10); gs_cover("damped"); }
// test particles: one gas particle within reach, so the interpolated gas is that particle
template <int n> static void test() { int NP = (OPT & THREE) || (OPT & DEADONE) ? 3 : 2; World<n> w("test_particle", NP); typedef typename Kind<n>::Part Part; Part* p = w.p; p[1].h = 0.5; for (int i = 0; i < NP; i++) p[i].h_dust = 0.75; w.go(); p = w.p; Part old[3]; for (int i = 0; i < NP; i++) old[i] = p[i]; w.d->UpdateAllDragForces(w.s); p = ARRAY(w.s);
  for (int i = 0; i < NP; i++) if (i != 1) { bool same = p[i].m == old[i].m && p[i].sound == old[i].sound && p[i].div_v == old[i].div_v; for (int k = 0; k < n; k++) same &= p[i].r[k] == old[i].r[k] && p[i].v[k] == old[i].v[k] && p[i].a[k] == old[i].a[k] && p[i].a0[k] == old[i].a0[k];
#ifdef MFVG
    for (int k = 0; k < n + 2; k++) same &= p[i].dQ[k] == old[i].dQ[k] && p[i].dQdt[k] == old[i].dQdt[k];
#else
    same &= p[i].dudt == old[i].dudt;
#endif
    gs_check("gas-untouched-by-test-particles", same); }
  Did<n> d(w, old[1], p[1]); double hd = p[1].h_dust, g = 0, wt[3] = {0, 0, 0}, cs = 0; gs_check("dust-smoothing-length-positive", hd > 0); for (int i = 0; i < NP; i++) if (i != 1 && !old[i].flags.is_dead()) { double d2 = 0; for (int k = 0; k < n; k++) { double x = old[i].r[k] - old[1].r[k]; if (x > 2) x -= 4; if (x < -2) x += 4; d2 += x * x; } wt[i] = old[i].m * pow(1 / hd, n) * w.kern.w0_s2(d2 / (hd * hd)); g += wt[i]; cs += wt[i] * old[i].sound; } cs /= g; double ts = tstop(w.K, g, 0, cs);
  for (int k = 0; k < n; k++) { double dv = 0, da = 0; for (int i = 0; i < NP; i++) if (wt[i] > 0) { dv += wt[i] / g * (w.vs(old[1], k) - w.vs(old[i], k)); da += wt[i] / g * (w.as(old[1], k) - w.as(old[i], k)); } gs_check_close("exact-solution-of-the-drag-equation", dv + (da + d.a[k]) * w.dt, left(dv, da, ts, w.dt), 3); } gs_check_close("sound-speed-scaled-to-dust-h", p[1].sound * hd, cs * old[1].h, 1); gs_cover((OPT & DEADONE) ? "a-dead-neighbour" : (OPT & THREE) ? "two-neighbours" : "test-particle"); }
static void law() { double K = gs_real("K", 0.01, 100), rg = gs_real("rg", 0.01, 10), rd = gs_real("rd", 0.01, 10), cs = gs_real("cs", 0.01, 10); double t = LAW == 0 ? FixedDrag(K)(rg, rd, cs) : LAW == 1 ? DensityDrag(K)(rg, rd, cs) : LAW == 2 ? EpsteinDrag(K)(rg, rd, cs) : LP12_Drag(K)(rg, rd, cs); gs_check("stopping-time-positive", t > 0); double w = tstop(K, rg, rd, cs); gs_check_close("stopping-time-law", t / w, 1, 1); gs_cover("law"); }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[3] = {1, 0, 0}; for (int i = 0; i < 3; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } LAW = v[1]; OPT = v[2];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, v[0]) }
  T(full) T(damp) T(test) if (!strcmp(f, "law")) law(); }
