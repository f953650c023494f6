// T01-T04: timestep selection, block timestep hierarchy, gas integrators and the neighbour limiter
#include "gsym.h"
#include "hydrostub.h"
#include "Sph.h"
#include "MeshlessFV.h"
#include "Nbody.h"
#include "Integration.h"
#include "Simulation.h"
#ifdef BLOCK
// ---- T01, T02: ComputeBlockTimesteps and ComputeGlobalTimestep with arbitrary criteria
typedef GradhSphParticle<1> Part;
struct Hyd : NullHydrodynamics<1> { Hyd(SimUnits& u, Parameters* p) : NullHydrodynamics<1>(1, 0, 1.2, "energy_eqn", "m4", sizeof(Part), u, p) {} };
static double X[4], XS[4], Dm; static Hyd* hy; static int seenDead, oneEach;
struct HInt : TimeIntegration<1> {
  void SetActiveParticles(const int, Hydrodynamics<1>*) {} void AdvanceParticles(const int, const FLOAT, const FLOAT, Hydrodynamics<1>*) {} void CorrectionTerms(const int, const FLOAT, const FLOAT, Hydrodynamics<1>*) {} void EndTimestep(const int, const FLOAT, const FLOAT, Hydrodynamics<1>*) {} int CheckTimesteps(const int, const int, const int, const FLOAT, Hydrodynamics<1>*) { return 0; }
  DOUBLE Timestep(Particle<1>& p, Hydrodynamics<1>*) { return X[p.iorig]; } };
struct NInt : NbodyLeapfrogKDK<1, M4Kernel> { DOUBLE Timestep(NbodyParticle<1>* s) { return XS[s->istar]; } NInt() : NbodyLeapfrogKDK<1, M4Kernel>(0, 0, 0, 0.1, "m4") {} };
struct Sim : Simulation<1> { Sim(); void ProcessParameters() {} void MainLoop() {} void PostInitialConditionsSetup() {} };
static Parameters P; static SimUnits U; static Part* parts; static StarParticle<1>* st;
static Simulation<1>* simulation(int np, int ns, int istep, int nlev) {
  P.floatparams["rho_sink"] = 1; P.intparams["create_sinks"] = P.intparams["sink_particles"] = 0; Simulation<1>* s = (Simulation<1>*)calloc(1, sizeof(Sim)); s->timing = new CodeTiming(); hy = new Hyd(U, &P); s->hydro = hy; s->hydroint = new HInt(); s->nbody = new NInt(); s->integration_step = istep; s->Nlevels = nlev; s->level_diff_max = 1; s->hydro_single_timestep = 0;
  parts = new Part[np ? np : 1]; hy->hydrodata_unsafe = parts; hy->Nhydro = np; hy->Nhydromax = np; st = new StarParticle<1>[ns ? ns : 1]; s->nbody->nbodydata = new NbodyParticle<1>*[ns ? ns : 1]; s->nbody->Nstar = s->nbody->Nnbody = ns;
  for (int i = 0; i < np; i++) { parts[i].iorig = i; parts[i].sinkid = -1; parts[i].tlast = 0; parts[i].dt = 1; parts[i].level = 0; parts[i].levelneib = 0; parts[i].nlast = parts[i].nstep = 0; parts[i].dt_next = 0; } for (int i = 0; i < ns; i++) { st[i].istar = i; s->nbody->nbodydata[i] = &st[i]; st[i].dt_next = 0; } s->t = 1; return s; }
static int NP = 2, NS = 1, IS = 1, NL = 3, OPT = 0;
static double crit(const char* f, int i, double D, double lo, double hi) { return D * exp(-Sg(f, i, 0, lo, hi)); }
static void invariants(Simulation<1>* s) {
  gs_check("level-structure", s->level_step == s->level_max + IS - 1 && s->nresync == 1 << s->level_step && s->n <= s->nresync && s->n >= 0); gs_check_close("base-step-divides-largest-step", s->timestep * s->nresync, s->dt_max, 1); int lh = 0;
  for (int i = 0; i < NP; i++) { Part& p = parts[i]; if (p.flags.is_dead()) continue; if (p.level > lh) lh = p.level; gs_check("level-within-hierarchy", p.level >= 0 && p.level <= s->level_max); gs_check("step-is-power-of-two-of-level", p.nstep == 1 << (s->level_step - p.level)); gs_check("step-aligned", p.nlast % p.nstep == 0 && p.nlast <= s->n && p.nlast + p.nstep >= s->n && p.nlast + p.nstep <= s->nresync); }
  for (int i = 0; i < NS; i++) { StarParticle<1>& p = st[i]; gs_check("level-within-hierarchy", p.level >= 0 && p.level <= s->level_max); gs_check("stars-no-coarser-than-gas", p.level >= lh || NP == 0); gs_check("step-is-power-of-two-of-level", p.nstep == 1 << (s->level_step - p.level)); gs_check("step-aligned", p.nlast % p.nstep == 0 && p.nlast <= s->n && p.nlast + p.nstep >= s->n && p.nlast + p.nstep <= s->nresync); } }
static void sync() { // everything at the end of its step: the hierarchy is rebuilt
  Simulation<1>* s = simulation(NP, NS, IS, NL); s->hydro_single_timestep = OPT & 1; s->level_max = NL - 1; s->level_step = s->level_max + IS - 1; s->nresync = s->n = 1 << s->level_step; double D = exp(gs_real("D", -3, 3)); int deadp = (OPT & 2) ? NP - 1 : -1; double mn = 1e30;
  int first = gs_choose("shortest", NP + NS); if (first == deadp) gs_end(); mn = D; // the shortest criterion is D, the others are longer
  for (int i = 0; i < NP; i++) { X[i] = i == first ? D : i == deadp ? D * gs_real("any", 0.001, 1) : crit("x", i, D, -0.7 * (NL + 1), 0); if (i == deadp) parts[i].flags.set(dead); } for (int i = 0; i < NS; i++) XS[i] = NP + i == first ? D : crit("y", i, D, -0.7 * (NL + 1), 0);
  s->Simulation<1>::ComputeBlockTimesteps(); gs_check("clock-restarts", s->n == 0); invariants(s); gs_check_close("largest-step", s->dt_max, mn * (1 << (NL - 1)), 100);
  for (int i = 0; i < NP; i++) if (i != deadp) { Part& p = parts[i]; gs_check("new-step-starts-now", p.nlast == s->n && p.flags.check(end_timestep) && p.levelneib == p.level); double L = p.nstep * s->timestep; gs_check("step-within-own-criterion", L <= 1.000001 * X[i]); gs_check_close("announced-step-is-the-step-taken", p.dt_next, L, 1); if (!(OPT & 1) && p.level > 1) gs_check("no-finer-than-needed", 0.499999 * X[i] <= L); } else gs_check("dead-untouched", parts[i].nstep == 0 && !parts[i].flags.check(end_timestep));
  for (int i = 0; i < NS; i++) { double L = st[i].nstep * s->timestep; gs_check("new-step-starts-now", st[i].nlast == s->n && st[i].flags.check(end_timestep)); gs_check_close("star-time", st[i].tlast, s->t, 1); gs_check("step-within-own-criterion", L <= 1.000001 * XS[i]); gs_check_close("announced-step-is-the-step-taken", st[i].dt_next, L, 1); }
  if (OPT & 1) for (int i = 1; i < NP; i++) if (i != deadp) gs_check("single-gas-step", parts[i].level == parts[0].level); gs_cover("rebuilt"); }
static void mid() { // in the middle of a hierarchy
  Simulation<1>* s = simulation(NP, NS, IS, NL); s->hydro_single_timestep = OPT & 1; int L0 = s->level_max = NL - 1; s->level_step = L0 + IS - 1; s->nresync = 1 << s->level_step; double D = s->dt_max = exp(gs_real("D", -3, 3)); double ts = s->timestep = D / s->nresync; int N0 = s->n = 1 + gs_choose("n", s->nresync - 1), lh = 0, lm = 0, lmin = 99; Part old[4]; StarParticle<1> ost[4]; bool end[4], se[4], red[4]; int deadp = (OPT & 2) ? NP - 1 : -1; char b[16];
  for (int i = 0; i < NP; i++) { Part& p = parts[i]; if (i == deadp) { p.flags.set(dead); continue; } sprintf(b, "lev%d", i); p.level = (OPT & 1) && i ? parts[0].level : gs_choose(b, L0 + 1); p.nstep = 1 << (s->level_step - p.level); p.nlast = (N0 - 1) / p.nstep * p.nstep; red[i] = false; if ((OPT & 4) && i == 0) { int d = N0 - p.nlast; if (d < p.nstep) { int lv = p.level + 1 + gs_choose("shortened", s->level_step); if (lv > L0 || d % (1 << (s->level_step - lv))) gs_end(); p.level = lv; p.nstep = d; red[i] = true; if (d == 1 << (s->level_step - lv)) gs_end(); } else gs_end(); } if (p.level > lh) lh = p.level; if (p.level < lmin) lmin = p.level; p.dt_next = 0; }
  for (int i = 0; i < NP; i++) if (i != deadp) { Part& p = parts[i]; sprintf(b, "ln%d", i); p.levelneib = (OPT & 8) ? gs_choose(b, lh + 1) : p.level; if (p.level > p.levelneib + 2) gs_end(); end[i] = N0 - p.nlast == p.nstep; X[i] = crit("x", i, D, -0.5, 0.69 * (NL + 1)); }
  for (int i = 0; i < NS; i++) { sprintf(b, "sl%d", i); st[i].level = lh + gs_choose(b, L0 - lh + 1); if (st[i].level > lm) lm = st[i].level; st[i].nstep = 1 << (s->level_step - st[i].level); st[i].nlast = (N0 - 1) / st[i].nstep * st[i].nstep; se[i] = N0 - st[i].nlast == st[i].nstep; st[i].tlast = 0; XS[i] = crit("y", i, D, -0.5, 0.69 * (NL + 1)); ost[i] = st[i]; }
  for (int i = 0; i < NP; i++) old[i] = parts[i];
  s->Simulation<1>::ComputeBlockTimesteps(); invariants(s); gs_check_close("clock-keeps-physical-time", s->n * s->timestep, N0 * ts, 1); gs_check_close("largest-step-kept", s->dt_max, D, 1);
  for (int i = 0; i < NP; i++) { Part &p = parts[i], &o = old[i]; if (i == deadp) { gs_check("dead-untouched", p.nstep == 0 && !p.flags.check(end_timestep)); continue; } double L = p.nstep * s->timestep;
    if (end[i]) { gs_check("new-step-starts-now", p.nlast == s->n && p.flags.check(end_timestep)); gs_check("step-within-own-criterion", L <= 1.000001 * X[i]); gs_check_close("announced-step-is-the-step-taken", p.dt_next, L, 1); gs_check("limited-by-neighbours", p.level >= o.levelneib - s->level_diff_max); gs_check("coarser-by-one-level-at-most", p.level >= o.level - 1); gs_cover(p.level > o.level ? "finer" : p.level < o.level ? "coarser" : "same"); if (red[i]) gs_cover("shortened"); }
    else { gs_check("step-in-progress-unchanged", p.level == o.level && !p.flags.check(end_timestep) && p.dt_next == 0); gs_check_close("step-in-progress-unchanged", p.nlast * s->timestep, o.nlast * ts, 1); gs_check_close("step-in-progress-unchanged", L, o.nstep * ts, 1); gs_cover("in-progress"); } }
  for (int i = 0; i < NS; i++) { double L = st[i].nstep * s->timestep; if (se[i]) { gs_check("new-step-starts-now", st[i].nlast == s->n && st[i].flags.check(end_timestep)); gs_check_close("star-time", st[i].tlast, s->t, 1); gs_check("step-within-own-criterion", L <= 1.000001 * XS[i]); gs_check_close("announced-step-is-the-step-taken", st[i].dt_next, L, 1); gs_cover("star-ends"); }
    else { gs_check_close("step-in-progress-unchanged", st[i].nlast * s->timestep, ost[i].nlast * ts, 1); gs_check_close("step-in-progress-unchanged", L, ost[i].nstep * ts, 1); gs_check("step-in-progress-unchanged", st[i].level == ost[i].level && st[i].tlast == 0 && st[i].dt_next == 0); } }
  if (s->level_max > L0) gs_cover("hierarchy-deepened"); if (s->level_max < L0) gs_cover("hierarchy-shrunk"); }
static void global() {
  Simulation<1>* s = simulation(NP, NS, IS, 1); int due = gs_choose("due", 2); s->nresync = IS; s->n = due ? IS : IS - 1; s->timestep = 7; s->level_max = 0; s->level_step = IS - 1; int deadp = (OPT & 2) ? NP - 1 : -1; double D = gs_real("D", 0.01, 10), mn = 1e30, mh = 1e30, msn = 1e30; for (int i = 0; i < NP; i++) { X[i] = Sg("x", i, 0, 0.01, 10); if (i == deadp) parts[i].flags.set(dead); else if (X[i] < mh) mh = X[i]; } for (int i = 0; i < NS; i++) { XS[i] = Sg("y", i, 0, 0.01, 10); if (XS[i] < msn) msn = XS[i]; } mn = min(mh, msn);
  s->Simulation<1>::ComputeGlobalTimestep(); if (!due) { gs_check("only-when-due", s->timestep == 7 && s->n == IS - 1); for (int i = 0; i < NP; i++) gs_check("only-when-due", parts[i].dt_next == 0 && !parts[i].flags.check(end_timestep)); gs_cover("not-due"); return; }
  gs_check("clock-restarts", s->n == 0 && s->nresync == IS); gs_check_close("global-step-is-the-smallest-criterion", s->timestep * s->nresync, mn, 1); for (int i = 0; i < NP; i++) if (i != deadp) { gs_check("same-step-for-all", parts[i].nstep == s->nresync && parts[i].level == 0 && parts[i].flags.check(end_timestep)); gs_check_close("announced-step-is-the-step-taken", parts[i].dt_next, parts[i].nstep * s->timestep, 1); gs_check_le("step-within-own-criterion", parts[i].nstep * s->timestep, X[i], 1); } for (int i = 0; i < NS; i++) { gs_check("same-step-for-all", st[i].nstep == s->nresync && st[i].level == 0 && st[i].flags.check(end_timestep)); gs_check_close("announced-step-is-the-step-taken", st[i].dt_next, st[i].nstep * s->timestep, 1); gs_check_le("step-within-own-criterion", st[i].nstep * s->timestep, XS[i], 1); }
  if (NP) gs_check_close("smallest-per-kind", s->dt_min_hydro, mh, 1); if (NS) gs_check_close("smallest-per-kind", s->dt_min_nbody, msn, 1); gs_cover("global"); }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[5] = {2, 1, 1, 3, 0}; for (int i = 0; i < 5; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } NP = v[0]; NS = v[1]; IS = v[2]; NL = v[3]; OPT = v[4]; if (!strcmp(f, "sync")) sync(); if (!strcmp(f, "mid")) mid(); if (!strcmp(f, "global")) global(); }
#endif
#ifndef BLOCK
static int N_ = 1, OPT = 0, SCH = 0; // scheme: 0 KDK, 1 DKD
template <int n> struct World {
  Parameters P; SimUnits U; EOS<n>* eos; GradhSph<n, M4Kernel>* s; SphIntegration<n>* I; double courant, accel, energy; bool einteg;
  World(bool e, tdaviscenum td) : einteg(e) { P.intparams["hydro_forces"] = 1; P.intparams["sink_particles"] = P.intparams["create_sinks"] = 0; P.floatparams["rho_sink"] = 1; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; eos = new Adiabatic<n>(&P, &U); courant = gs_real("courant", 0.05, 1); accel = gs_real("accel", 0.05, 1); energy = gs_real("energy", 0.05, 1); s = new GradhSph<n, M4Kernel>(1, 1, 1, 2, 1.2, 0.01, mon97, noac, notdav, "energy_eqn", "m4", U, &P); s->eos = eos;
    if (SCH == 0) I = new SphLeapfrogKDK<n, GradhSphParticle>(accel, courant, energy, e, td); else I = new SphLeapfrogDKD<n, GradhSphParticle>(accel, courant, energy, e, td); I->timing = new CodeTiming(); }
  GradhSphParticle<n>* parts(int c) { GradhSphParticle<n>* p = new GradhSphParticle<n>[c]; s->sphdata = p; s->hydrodata_unsafe = p; s->sphdata_unsafe = p; s->Nhydro = c; for (int i = 0; i < c; i++) { p[i].level = p[i].levelneib = 0; p[i].sinkid = -1; p[i].ptype = gas_type; } return p; } };
template <int n> void state(GradhSphParticle<n>& p) { for (int k = 0; k < n; k++) { p.r0[k] = Sg("r0", 0, k, -3, 3); p.v0[k] = Sg("v0", 0, k, -3, 3); p.a0[k] = Sg("a0", 0, k, -3, 3); p.a[k] = p.a0[k]; p.r[k] = 99; p.v[k] = 98; } p.u0 = gs_real("u0", 1, 10); p.dudt0 = gs_real("dudt0", -1, 1); p.dudt = p.dudt0; p.u = 97; p.alpha = gs_real("alpha", 0.1, 1); p.dalphadt = gs_real("dalphadt", -1, 1); p.h = gs_real("h", 0.1, 3); p.sound = gs_real("c", 0.1, 3); p.div_v = gs_real("div_v", -3, 3); }
// ---- T03
template <int n> void motion() {
  bool e = OPT & 1; World<n> w(e, (OPT & 2) ? mm97 : notdav); GradhSphParticle<n>* P = w.parts(3); GradhSphParticle<n>& p = P[0]; state<n>(p); int lg = gs_choose("log-nstep", 4), ns = SCH ? 2 << lg : 1 << lg, dn = 1 + gs_choose("dn", ns), nl = ns * gs_choose("start", 2); double ts = gs_real("ts", 0.001, 0.1), t0 = gs_real("t0", 0, 10), dt = dn * ts, t = t0 + dt; p.tlast = t0; p.nlast = nl; p.nstep = ns; p.dt = ns * ts; p.dt_next = gs_real("dtn", 0.001, 0.1); GradhSphParticle<n> o = p; P[1] = p; P[1].flags.set(dead); P[2] = p; P[2].nstep = 2 * ns; P[2].dt = 2 * p.dt;
  w.I->AdvanceParticles(nl + dn, t, ts, w.s); bool end = dn == ns, act = SCH ? 2 * dn == ns : end;
  for (int k = 0; k < n; k++) { double v = o.v0[k] + o.a0[k] * dt, r = o.r0[k] + o.v0[k] * dt + 0.5 * o.a0[k] * dt * dt; gs_check_close("velocity", p.v[k], v, 10); if (SCH && !end) r = o.r0[k] + o.v0[k] * dt; gs_check_close("position", p.r[k], r, 10); gs_check_close("dead-untouched", P[1].r[k], 99, 1); }
  if (e) gs_check_close("energy", p.u, o.u0 + o.dudt0 * dt, 10); else gs_check_close("energy", p.u, 97, 1); gs_check_close("viscosity-switch", p.alpha, o.alpha + ((OPT & 2) ? o.dalphadt * ts : 0.0), 1); gs_check("active-exactly-when-forces-are-due", p.flags.check(active) == act); gs_check("active-exactly-when-forces-are-due", P[2].flags.check(active) == (SCH ? dn == ns : false)); w.I->SetActiveParticles(nl + dn, w.s); gs_check("active-exactly-when-forces-are-due", p.flags.check(active) == act);
  if (!end) { p.flags.unset(end_timestep); } else p.flags.set(end_timestep); GradhSphParticle<n> b = p; if (SCH == 0) { double a1[n], d1 = gs_real("dudt1", -1, 1); for (int k = 0; k < n; k++) p.a[k] = a1[k] = Sg("a1", 0, k, -3, 3); p.dudt = d1; }
  GradhSphParticle<n> c = p; w.I->EndTimestep(nl + dn, t, ts, w.s); if (!end) { gs_check("not-ended-early", p.nlast == nl && p.dt_next == o.dt_next); for (int k = 0; k < n; k++) { gs_check_close("not-ended-early", p.r0[k], o.r0[k], 1); gs_check_close("not-ended-early", p.v[k], b.v[k], 10); } gs_check_close("not-ended-early", p.u, b.u, 10); gs_cover("mid-step"); return; }
  gs_check("reference-state-reset", p.nlast == nl + dn && !p.flags.check(end_timestep) && !p.flags.check(active)); gs_check_close("reference-state-reset", p.tlast, t, 10); gs_check_close("next-step-adopted", p.dt, o.dt_next, 1);
  for (int k = 0; k < n; k++) { double v = SCH ? o.v0[k] + o.a0[k] * dt : o.v0[k] + 0.5 * (o.a0[k] + c.a[k]) * dt; gs_check_close("second-order-velocity", p.v[k], v, 10); gs_check_close("reference-state-reset", p.v0[k], p.v[k], 1); gs_check_close("reference-state-reset", p.r0[k], b.r[k], 1); gs_check_close("reference-state-reset", p.r[k], b.r[k], 1); gs_check_close("reference-state-reset", p.a0[k], c.a[k], 1); gs_check_close("dead-untouched", P[1].r0[k], o.r0[k], 1); }
  if (e) { gs_check_close("second-order-energy", p.u, SCH ? o.u0 + o.dudt0 * dt : o.u0 + 0.5 * (o.dudt0 + c.dudt) * dt, 10); gs_check_close("reference-state-reset", p.u0, p.u, 1); if (!SCH) gs_check_close("reference-state-reset", p.dudt0, c.dudt, 1); } gs_check("others-unaffected", P[2].nlast == nl && P[1].nlast == nl); gs_cover("ended"); }
// ---- T02: the hydrodynamic criterion
template <int n> void crit() {
  bool e = OPT & 1; World<n> w(e, notdav); GradhSphParticle<n>* P = w.parts(1); GradhSphParticle<n>& p = P[0]; state<n>(p); if (OPT & 2) *(int*)&w.s->hydro_forces = 0; if (OPT & 4) { p.sinkid = 0; } if (OPT & 8) *(aviscenum*)&w.s->avisc = noav; p.u = gs_real("u", 0.1, 10); double a2 = 0; for (int k = 0; k < n; k++) { p.a[k] = Sg("a", 0, k, -3, 3); a2 += p.a[k] * p.a[k]; } gs_assume(a2 > 0.01); if (p.div_v < 0) gs_assume(p.div_v < -0.01); else gs_assume(p.div_v > 0.01); if (p.dudt < 0) gs_assume(p.dudt < -0.01); else gs_assume(p.dudt > 0.01); double dv = p.div_v < 0 ? -p.div_v : p.div_v;
  double t = w.I->Timestep(p, w.s), rate = ((OPT & 2) ? 0.0 : p.sound) + p.h * dv, q = t / w.accel, ed = p.dudt < 0 ? -p.dudt : p.dudt; gs_check("positive", t > 0); gs_check("courant-limit", t * rate <= 1.000001 * w.courant * p.h); gs_check("acceleration-limit", q * q * sqrt(a2) <= 1.000001 * p.h); if (e) gs_check("energy-limit", t * ed <= 1.000001 * w.energy * p.u);
  bool b = t * rate >= 0.999999 * w.courant * p.h; if (!b) b = q * q * sqrt(a2) >= 0.999999 * p.h; if (!b && e) b = t * ed >= 0.999999 * w.energy * p.u; gs_check("some-criterion-binds", b); gs_cover("criterion"); }
// ---- T04
template <int n> void limit() {
  World<n> w(true, notdav); GradhSphParticle<n>* P = w.parts(2); GradhSphParticle<n>& p = P[0]; state<n>(p); int IS = SCH + 1, L0 = OPT, step = L0 + IS - 1, diff = 1 + gs_choose("diff", 2); double ts = gs_real("ts", 0.001, 0.1), t0 = gs_real("t0", 0, 10);
  p.level = gs_choose("level", L0 + 1); p.nstep = 1 << (step - p.level); p.levelneib = gs_choose("levelneib", L0 + 1); int dn = 1 + gs_choose("dn", p.nstep); p.nlast = p.nstep * gs_choose("start", (1 << step) / p.nstep); int nn = p.nlast + dn; p.tlast = t0; p.dt = p.nstep * ts; p.dt_next = 0; p.flags.unset(active); GradhSphParticle<n> o = p; P[1] = p; P[1].flags.set(dead); double t = t0 + dn * ts;
  w.I->AdvanceParticles(nn, t, ts, w.s); bool was = p.flags.check(active); GradhSphParticle<n> b = p; int c = w.I->CheckTimesteps(diff, step, nn, ts, w.s); gs_check("dead-untouched", P[1].nstep == o.nstep && P[1].level == o.level && !P[1].flags.check(active)); bool over = o.levelneib - o.level > diff && dn != o.nstep; int ln = o.levelneib - diff, al = over ? 1 << (step - ln) : 1; gs_check_close("physical-time-kept", p.tlast, t0, 1); gs_check("start-kept", p.nlast == o.nlast);
  if (!over) { gs_check("untouched-unless-neighbours-much-finer", p.nstep == o.nstep && p.level == o.level && p.flags.check(active) == was && c == 0); gs_check_close("untouched-unless-neighbours-much-finer", p.dt, o.dt, 1); gs_cover("untouched"); return; }
  bool cut = p.nstep != o.nstep; if (cut) { gs_check("new-level-within-ratio", p.level == ln && c == 1 && p.flags.check(active)); gs_check("shortened-step-ends-now-or-later-but-earlier-than-before", p.nlast + p.nstep >= nn && p.nstep < o.nstep); gs_check("shortened-step-ends-aligned", (p.nlast + p.nstep) % al == 0); gs_check_close("step-length-is-the-time-it-spans", p.dt, p.nstep * ts, 1); gs_cover("shortened"); }
  else { gs_check("untouched-until-aligned", p.level == o.level && p.flags.check(active) == was && c == 0 && dn % al != 0); gs_check_close("untouched-until-aligned", p.dt, o.dt, 1); gs_cover("waiting"); }
  if (cut && p.nlast + p.nstep == nn) { for (int k = 0; k < n; k++) p.a[k] = SCH ? p.a0[k] : Sg("a1", 0, k, -3, 3); p.flags.set(end_timestep); w.I->EndTimestep(nn, t, ts, w.s); for (int k = 0; k < n; k++) gs_check_close("shortened-step-is-second-order", p.v[k], o.v0[k] + 0.5 * (o.a0[k] + p.a[k]) * dn * ts, 10); } }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[3] = {1, 0, 0}; for (int i = 0; i < 3; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } SCH = v[1]; OPT = v[2];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, v[0]) }
  T(motion) T(crit) T(limit) }
#endif
