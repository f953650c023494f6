// S01, S02: sink formation and accretion
#include "gsym.h"
#include "hydrostub.h"
#include "Sph.h"
#include "MeshlessFV.h"
#include "Nbody.h"
#include "Sinks.h"
static Parameters P; static SimUnits U; static int OPT = 0, NP = 2, NS = 1;
enum { SMOOTH = 1, FREEPOS = 2, DEAD = 4, FIXEDR = 8, OVERLAP = 16, NOTDUE = 32, HMULT = 64, CAPPED = 128, TIED = 256, PAIRED = 512 };
static const double X[4][3] = {{0.25, 0.125, -0.0625}, {-0.375, 0.1875, 0.25}, {0.75, -0.5, 0.375}, {0.125, 0.9375, 0.25}}, SX[2][3] = {{0, 0, 0}, {0.5, -0.125, 0.1875}};
// a neighbour search that finds what it must and, the first time round, reports a list that is too small
template <int n> struct Finder : public NeighbourSearch<n> { int calls, small; Finder() { calls = small = 0; }
  int GetGatherNeighbourList(FLOAT* rp, FLOAT rs, Particle<n>* p, int N, int cap, int* l) { calls++; if (small && cap < 200) return -1; GradhSphParticle<n>* q = (GradhSphParticle<n>*)p; int m = 0; for (int i = 0; i < N; i++) { double d2 = 0; for (int k = 0; k < n; k++) d2 += (q[i].r[k] - rp[k]) * (q[i].r[k] - rp[k]); if (d2 < rs * rs && !q[i].flags.is_dead()) l[m++] = i; } return m; }
  void BuildTree(const bool, const int, const int, const int, const FLOAT, Hydrodynamics<n>*) {} void BuildGhostTree(const bool, const int, const int, const int, const FLOAT, Hydrodynamics<n>*) {} void SearchBoundaryGhostParticles(FLOAT, const DomainBox<n>&, Hydrodynamics<n>*) {} void UpdateActiveParticleCounters(Hydrodynamics<n>*) {} void UpdateAllStarGasForces(Hydrodynamics<n>*, Nbody<n>*, DomainBox<n>&, Ewald<n>*) {} void UpdateAllProperties(Hydrodynamics<n>*, Nbody<n>*) {} double GetMaximumSmoothingLength() const { return 0; } TreeBase<n>* GetTree() const { return 0; } TreeBase<n>* GetGhostTree() const { return 0; } void SetTimingObject(CodeTiming*) {} void ToggleNeighbourCheck(bool) {} void UpdateTimestepsLimitsFromDistantParticles(Hydrodynamics<n>*, const bool) {} MAC_Type GetOpeningCriterion() const { return geometric; } void SetOpeningCriterion(MAC_Type) {} };
template <int n> struct World { GradhSph<n, M4Kernel>* s; Nbody<n>* nb; Finder<n>* f; Sinks<n>* k; GradhSphParticle<n>* p; CodeTiming* tm;
  void base() { P.intparams["hydro_forces"] = 1; P.stringparams["dust_forces"] = "none"; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; s = new GradhSph<n, M4Kernel>(1, 1, 1, 2, 1.2, 0.01, mon97, noac, notdav, "energy_eqn", "m4", U, &P); s->AllocateMemory(NP); s->Nhydro = s->Ntot = NP; s->mmean = 1; s->hmin_sink = 5; p = (GradhSphParticle<n>*)s->GetSphParticleArray(); nb = new NbodyLeapfrogKDK<n, M4Kernel>(0, 0, 0, 0.1, "m4"); nb->AllocateMemory(8); nb->Nstar = nb->Nnbody = NS; nb->Nsystem = 0; f = new Finder<n>; k = new Sinks<n>(f); k->AllocateMemory(4); k->timing = new CodeTiming; k->Nsink = NS; k->smooth_accretion = OPT & SMOOTH; k->sink_radius_mode = "hmult"; k->rho_sink = 1; k->sink_radius = 2; }
  void star(int i) { StarParticle<n>& q = nb->stardata[i]; nb->nbodydata[i] = &q; k->sink[i].star = &q; k->sink[i].istar = i; q.m = Sg("ms", i, 0, 0.5, 20); q.radius = q.h = 0.5; q.invh = 2; q.nstep = 1; q.level = 3; for (int a = 0; a < n; a++) { q.r[a] = SX[i][a]; q.v[a] = Sg("vs", i, a, -2, 2); q.a[a] = a ? 0 : Sg("as", i, a, -2, 2); q.r0[a] = q.r[a]; q.v0[a] = q.v[a]; q.a0[a] = q.a[a]; } k->sink[i].radius = 0.5; for (int a = 0; a < 3; a++) k->sink[i].angmom[a] = a == 2 || n == 3 ? Sg("L", i, a, -1, 1) : 0; k->sink[i].mmax = 0; } };
template <int n> struct Tot { double m, r[3], v[3], l[3], a[3];
  Tot(World<n>& w) { m = 0; for (int k = 0; k < 3; k++) r[k] = v[k] = l[k] = a[k] = 0; for (int i = 0; i < NP; i++) if (!w.p[i].flags.is_dead()) add(w.p[i].m, w.p[i].r, w.p[i].v, w.p[i].a); for (int i = 0; i < w.k->Nsink; i++) { StarParticle<n>& q = *w.k->sink[i].star; add(q.m, q.r, q.v, q.a); for (int k = 0; k < 3; k++) l[k] += w.k->sink[i].angmom[k]; } }
  void add(double mm, const double* x, const double* u, const double* g) { double R[3] = {0, 0, 0}, V[3] = {0, 0, 0}; for (int k = 0; k < n; k++) { R[k] = x[k]; V[k] = u[k]; r[k] += mm * x[k]; v[k] += mm * u[k]; a[k] += mm * g[k]; } m += mm; for (int k = 0; k < 3; k++) l[k] += mm * (R[(k + 1) % 3] * V[(k + 2) % 3] - R[(k + 2) % 3] * V[(k + 1) % 3]); } };
template <int n> static void same(Tot<n>& a, Tot<n>& b) { gs_check_close("total-mass", b.m, a.m, 10); for (int k = 0; k < n; k++) { gs_check_close("centre-of-mass", b.r[k], a.r[k], 10); gs_check_close("linear-momentum", b.v[k], a.v[k], 10); gs_check_close("total-force", b.a[k], a.a[k], 10); } if (n > 1) for (int k = n == 3 ? 0 : 2; k < 3; k++) gs_check_close("angular-momentum", b.l[k], a.l[k], 10); }
template <int n> static bool within(World<n>& w, int i, const double* x, double rad) { double d2 = 0; for (int k = 0; k < n; k++) d2 += (w.p[i].r[k] - x[k]) * (w.p[i].r[k] - x[k]); return d2 < rad * rad; }
template <int n> static void accrete() { World<n> w; w.base(); w.k->alpha_ss = 0.1; w.k->smooth_accrete_frac = 0.01; w.k->smooth_accrete_dt = 0.001; w.f->small = gs_choose("list-too-small", (OPT & SMOOTH) ? 1 : 2); for (int i = 0; i < NS; i++) w.star(i);
  if (!(OPT & FIXEDR)) w.k->sink[0].radius = gs_real("radius", 0.1, 1.25); int nn = 4; if (OPT & NOTDUE) w.nb->stardata[NS - 1].nstep = gs_choose("due", 2) ? 8 : 4;
  for (int i = 0; i < NP; i++) { GradhSphParticle<n>& q = w.p[i]; q.m = Sg("m", i, 0, 0.5, 2); q.h = 0.5; q.rho = 1.5; q.u = 1; q.sound = (OPT & SMOOTH) ? 1.25 : 1; q.dt = (OPT & SMOOTH) ? Sg("dt", i, 0, 0.0005, 0.1) : 0.1; q.levelneib = 1; q.flags.set(active); for (int a = 0; a < n; a++) { q.r[a] = X[i][a] + (a == 0 && (OPT & FREEPOS) ? Sg("x", i, a, -0.05, 0.05) : 0); q.v[a] = (OPT & SMOOTH) ? 0.25 * X[3 - i][a] : Sg("v", i, a, -2, 2); q.a[a] = a ? 0 : Sg("a", i, a, -2, 2); } if ((OPT & DEAD) && i == 0) { q.flags.set(dead); q.m = 0; } }
  if (OPT & SMOOTH) for (int i = 0; i < NS; i++) { StarParticle<n>& q = w.nb->stardata[i]; for (int a = 0; a < n; a++) q.v[a] = q.v0[a] = SX[i][a] * 0.5; w.k->sink[i].mmax = gs_choose("capped", 2) ? 0.75 : 0; }
  Tot<n> t0(w); double m0[4], ms0[2], x0[2][3]; for (int i = 0; i < NP; i++) m0[i] = w.p[i].m; for (int s = 0; s < NS; s++) { ms0[s] = w.nb->stardata[s].m; for (int a = 0; a < n; a++) x0[s][a] = w.nb->stardata[s].r[a]; } GradhSphParticle<n> old[4]; for (int i = 0; i < NP; i++) old[i] = w.p[i]; StarParticle<n> os[2]; for (int s = 0; s < NS; s++) os[s] = w.nb->stardata[s];
  w.k->AccreteMassToSinks(nn, 0.01, w.s, w.nb); Tot<n> t1(w); same<n>(t0, t1); double gone = 0;
  for (int i = 0; i < NP; i++) { GradhSphParticle<n>& q = w.p[i]; bool was = old[i].flags.is_dead(); int in = 0, due = 0; for (int s = 0; s < NS; s++) if (!was && within(w, i, x0[s], w.k->sink[s].radius)) { in++; due += nn % w.nb->stardata[s].nstep == 0; } if (q.flags.is_dead()) { gs_check("dead-particles-have-no-mass", q.m == 0); gs_check("dead-particles-inactive", was || !q.flags.check(active)); if (!was) gs_cover("swallowed"); } else { gs_check("live-particles-have-mass", q.m > 0); gs_check_le("mass-never-grows", q.m, m0[i], 1); }
    if (!was && !due) { gs_check("only-particles-inside-a-due-sink-lose-mass", !q.flags.is_dead() && q.m == m0[i]); gs_cover("spared"); } if (!was && in && due == in && !(OPT & SMOOTH)) { gs_check("everything-inside-is-swallowed", q.flags.is_dead()); gs_check("neighbour-level-passed-on", q.levelneib == 3); } if (!was && !q.flags.is_dead() && due && (OPT & SMOOTH)) gs_cover("partly"); for (int a = 0; a < n; a++) gs_check("gas-not-moved", q.r[a] == old[i].r[a] && q.v[a] == old[i].v[a]); gone += m0[i] - q.m; }
  double got = 0; for (int s = 0; s < NS; s++) { StarParticle<n>& q = w.nb->stardata[s]; SinkParticle<n>& k = w.k->sink[s]; double dm = q.m - ms0[s]; got += dm; if (nn % q.nstep) { gs_check("sinks-not-due-wait", q.m == ms0[s] && q.r[0] == os[s].r[0] && q.v[0] == os[s].v[0]); gs_cover("waits"); } else { bool any = false; for (int i = 0; i < NP; i++) any |= !old[i].flags.is_dead() && within(w, i, x0[s], k.radius); if (any) for (int a = 0; a < n; a++) gs_check("start-of-step-state-follows", q.r0[a] == q.r[a] && q.v0[a] == q.v[a] && q.a0[a] == q.a[a]); if (any && (OPT & SMOOTH) && NS == 1) { double dt = q.nstep * 0.01; gs_check_le("at-least-the-planned-mass", k.dmdt * dt, dm, 10); gs_check_le("planned-mass-available", k.dmdt * dt, k.menc, 10); gs_check("planned-mass-not-negative", k.dmdt >= 0); bool taken = true; int order[4], m = 0; for (int i = 0; i < NP; i++) if (!old[i].flags.is_dead() && within(w, i, x0[s], k.radius)) { int c = m++; while (c > 0) { double a = 0, b = 0; for (int d = 0; d < n; d++) { a += X[order[c - 1]][d] * X[order[c - 1]][d]; b += X[i][d] * X[i][d]; } if (a <= b) break; order[c] = order[c - 1]; c--; } order[c] = i; } for (int c = 0; c < m; c++) { if (w.p[order[c]].m < m0[order[c]]) gs_check("nearest-gas-first", taken); else taken = false; } } } }
  gs_check_close("what-the-gas-loses-the-sinks-gain", gone, got, 10); }
// which particles become sinks
template <int n> static bool eligible(World<n>& w, GradhSphParticle<n>* old, int i, int nn, int S, const bool* used) { GradhSphParticle<n>& q = old[i]; if (used[i] || q.flags.is_dead() || !q.flags.check(potmin) || q.rho < w.k->rho_sink || nn % q.nstep) return false;
  for (int s = 0; s < S; s++) { StarParticle<n>& t = *w.k->sink[s].star; double d2 = 0, da = 0, dv = 0; for (int k = 0; k < n; k++) { double d = q.r[k] - t.r[k]; d2 += d * d; da += d * (q.a[k] - t.a[k]); dv += d * (q.v[k] - t.v[k]); } double reach = (w.k->sink_radius_mode == "fixed" ? w.k->sink_radius : 2 * q.h) + w.k->sink[s].radius; if (d2 < reach * reach) { gs_cover("overlaps"); return false; } if (dv > 0 && 0.5 * dv > d2 * sqrt(q.rho)) { gs_cover("about-to-meet"); return false; } if (q.rho * d2 < -da) { gs_cover("inside-hill-sphere"); return false; } } return true; }
template <int n> static void form() { if (OPT & CAPPED) gs_cover("limit"); World<n> w; w.base(); int mode = (OPT & FIXEDR) ? 0 : (OPT & HMULT) ? 1 : 2; w.k->sink_radius_mode = mode == 0 ? "fixed" : mode == 1 ? "hmult" : "density"; w.k->sink_radius = mode ? 2 : 0.25; for (int i = 0; i < NS; i++) w.star(i); int nn = 4, cap = w.k->Nsinkfixed = (OPT & CAPPED) ? NS + gs_choose("limit", 2) : -1;
  for (int i = 0; i < NP; i++) { GradhSphParticle<n>& q = w.p[i]; q.m = Sg("m", i, 0, 0.5, 2); q.h = Sg("h", i, 0, 0.05, 0.2); q.rho = Sg("rho", i, 0, 0.5, 4); q.u = 1; q.gpot = Sg("gp", i, 0, -1, 1); q.dt = 0.1; q.nlast = 4; q.level = 2; q.nstep = (i == 0 && !(OPT & FREEPOS)) ? 1 + gs_choose("nstep", 2) * 7 : 2; q.flags.set(active); for (int a = 0; a < n; a++) { q.r[a] = 2 * X[i + (NS ? 2 : 0)][a] + (a == 0 && (OPT & FREEPOS) ? Sg("x", i, a, -0.3, 0.3) : 0); q.v[a] = a || (OPT & FREEPOS) ? X[i][a] : Sg("v", i, a, -4, 4); q.a[a] = a || (OPT & FREEPOS) ? X[3 - i][a] : Sg("a", i, a, -4, 4); q.r0[a] = q.r[a] - 0.01; q.v0[a] = q.v[a]; q.a0[a] = q.a[a]; } if ((OPT & FREEPOS) || i || gs_choose("potmin", 2)) q.flags.set(potmin); if ((OPT & DEAD) && gs_choose("is-dead", 2)) q.flags.set(dead); }
  GradhSphParticle<n> old[4]; for (int i = 0; i < NP; i++) old[i] = w.p[i]; Tot<n> t0(w); w.k->SearchForNewSinkParticles(nn, 1.5, w.s, w.nb); Tot<n> t1(w); same<n>(t0, t1); int S = w.k->Nsink; gs_check("one-star-per-sink", w.nb->Nstar == S && w.nb->Nnbody == S); gs_check("never-more-sinks-than-asked-for", cap == -1 || S <= max(cap, NS)); bool used[4] = {0}; double hmin = 5;
  for (int s = NS; s < S; s++) { StarParticle<n>& t = *w.k->sink[s].star; SinkParticle<n>& k = w.k->sink[s]; int who = -1; gs_check("star-registered", &t == &w.nb->stardata[s] && w.nb->nbodydata[s] == &t); for (int i = 0; i < NP; i++) if (!used[i] && t.r[0] == old[i].r[0] && t.m == old[i].m) who = i; gs_check("made-from-a-particle", who >= 0); if (who < 0) return; GradhSphParticle<n>& q = old[who]; gs_check("only-eligible-particles", eligible(w, old, who, nn, s, used)); for (int j = 0; j < NP; j++) if (j != who && eligible(w, old, j, nn, s, used)) gs_check_le("densest-first", old[j].rho, q.rho, 1); used[who] = true; GradhSphParticle<n>& g = w.p[who]; gs_check("its-particle-is-removed", g.flags.is_dead() && !g.flags.check(active) && g.m == 0); hmin = min(hmin, q.h);
    gs_check_close("radius", k.radius, mode == 0 ? 0.25 : 2 * q.h, 1); gs_check_close("radius", t.radius, k.radius, 1); gs_check_close("softening-is-radius-over-kernel-range", t.h * 2, k.radius, 1); gs_check_close("inverse-smoothing-length", t.h * t.invh, 1, 1); for (int a = 0; a < n; a++) gs_check("state-inherited", t.r[a] == q.r[a] && t.v[a] == q.v[a] && t.a[a] == q.a[a] && t.r0[a] == q.r0[a] && t.v0[a] == q.v0[a] && t.a0[a] == q.a0[a] && t.adot[a] == 0 && t.adot0[a] == 0 && t.a2dot[a] == 0 && t.a3dot[a] == 0); for (int a = 0; a < 3; a++) gs_check("no-spin-at-birth", k.angmom[a] == 0); gs_check("step-inherited", t.dt == q.dt && t.nstep == q.nstep && t.nlast == q.nlast && t.level == q.level && t.tlast == 1.5 && t.flags.check(active) && t.Ncomp == 1); gs_check("potential-inherited", t.gpot == q.gpot && t.gpe_internal == 0); double in = 0; bool sure = true; for (int j = 0; j < NP; j++) if (!old[j].flags.is_dead() && !used[j] && within(w, j, t.r, k.radius)) in += old[j].m; gs_check_close("mass-inside-at-birth", k.mmax, in, 1); gs_cover("formed"); }
  gs_check_close("smallest-sink-smoothing-length", w.s->hmin_sink, hmin, 1); if (cap == -1 || S < cap) for (int j = 0; j < NP; j++) gs_check("none-left-out", !eligible(w, old, j, nn, S, used)); if (S == NS) gs_cover("none-formed"); if (S > NS + 1) gs_cover("several-formed"); for (int j = 0; j < NP; j++) if (!used[j]) gs_check("others-untouched", w.p[j].m == old[j].m && w.p[j].flags.get() == old[j].flags.get()); }
// two sinks over the same gas, everything numeric: the one left without gas accretes nothing
template <int n> static void shared() { OPT = SMOOTH; NP = 2; NS = 2; World<n> w; w.base(); w.k->alpha_ss = 0.1; w.k->smooth_accrete_frac = 0.01; w.k->smooth_accrete_dt = 0.001; int mode = gs_choose("smooth", 2), who = gs_choose("order", 2); w.k->smooth_accretion = mode; for (int i = 0; i < 2; i++) { StarParticle<n>& q = w.nb->stardata[i]; w.nb->nbodydata[i] = &q; w.k->sink[i].star = &q; q.m = 1 + i; q.radius = q.h = 0.5; q.invh = 2; q.nstep = 1; q.level = 3; for (int a = 0; a < n; a++) { q.r[a] = SX[i ^ who][a]; q.v[a] = 0.1 * a; q.a[a] = 0.3; } w.k->sink[i].radius = 1.5; GradhSphParticle<n>& p = w.p[i]; p.m = 0.5 + i; p.h = 0.5; p.rho = 1.5; p.u = 1; p.sound = 1; p.dt = 0.1; p.levelneib = 1; p.flags.set(active); for (int a = 0; a < n; a++) { p.r[a] = X[i][a]; p.v[a] = -0.2 * a; p.a[a] = 0.1; } }
  Tot<n> t0(w); w.k->AccreteMassToSinks(4, 0.01, w.s, w.nb); Tot<n> t1(w); same<n>(t0, t1); for (int i = 0; i < 2; i++) { SinkParticle<n>& k = w.k->sink[i]; gs_check("accretion-record-is-a-number", k.dmdt == k.dmdt && k.menc == k.menc && k.ketot == k.ketot && k.rotketot == k.rotketot && k.gpetot == k.gpetot && k.tvisc == k.tvisc && k.trad == k.trad && k.taccrete == k.taccrete); } gs_cover("shared"); }
template <int n> static void mfv() { MeshlessFVParticle<n> p; MeshlessFV<n>* s = 0; char* raw = new char[sizeof(MeshlessFV<n>)]; p.m = gs_real("m", 1, 2); p.u = gs_real("u", 0.1, 5); double q0[n + 2], dm = gs_real("dm", 0.01, 0.5), m0 = p.m, E = p.u; for (int k = 0; k < n; k++) p.v[k] = Sg("v", 0, k, -2, 2); for (int k = 0; k < n + 2; k++) q0[k] = p.dQ[k] = Sg("dq", 0, k, -1, 1); s = (MeshlessFV<n>*)raw; s->MeshlessFV<n>::AccreteMassFromParticle(dm, p); gs_check_close("accreted-mass-leaves", p.m, m0 - dm, 1); gs_check_close("accreted-mass-leaves", p.dQ[MeshlessFV<n>::irho], q0[MeshlessFV<n>::irho] - dm, 1); for (int k = 0; k < n; k++) { gs_check_close("accreted-momentum-leaves", p.dQ[k], q0[k] - dm * p.v[k], 1); E += 0.5 * p.v[k] * p.v[k]; } gs_check_close("accreted-energy-leaves", p.dQ[MeshlessFV<n>::ietot], q0[MeshlessFV<n>::ietot] - dm * E, 1); gs_cover("accreted"); }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[4] = {1, 2, 1, 0}; for (int i = 0; i < 4; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } NP = v[1]; NS = v[2]; OPT = v[3];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, v[0]) }
  T(accrete) T(form) T(shared) T(mfv) }
