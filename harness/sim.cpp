// O02, O03, B01, N04: diagnostics, output schedule, boundary handling, stellar table
#include "gsym.h"
#include "hydrostub.h"
#include "Sph.h"
#include "MeshlessFV.h"
#include "Nbody.h"
#include "Integration.h"
#include "Simulation.h"
static int OPT = 0; static Parameters P; static SimUnits U;
template <int n> struct Hyd : NullHydrodynamics<n> { Hyd(int hf, int sg) : NullHydrodynamics<n>(hf, sg, 1.2, "energy_eqn", "m4", sizeof(GradhSphParticle<n>), U, &P) {} };
static int nsnap, nlite, ndiag, nout, nupd, nloop, nfinal; static char lastname[128], litename[128]; static double STEP[6];
template <int n> struct Sim : Simulation<n> { Sim() : Simulation<n>(&P) { this->timing = new CodeTiming(); this->simunits.t.outscale = 1; } void ProcessParameters() {} void PostInitialConditionsSetup() {} void RecordDiagnostics() {} void FinaliseSimulation() { nfinal++; }
  void MainLoop() { this->t = this->t + STEP[nloop++]; this->Nsteps++; this->n++; if (this->n > this->nresync) this->n = 1; if (this->n == this->nresync) this->Nblocksteps++; }
  bool WriteColumnSnapshotFile(string f) { nsnap++; strncpy(lastname, f.c_str(), 127); return true; } bool WriteSerenLiteSnapshotFile(string f) { nlite++; strncpy(litename, f.c_str(), 127); return true; } };
template <int n> struct OSim : Sim<n> { void CalculateDiagnostics() { ndiag++; } void OutputDiagnostics() { nout++; } void UpdateDiagnostics() { nupd++; } };
#ifdef P_O02
template <int n> struct Tot { double m, ke, u, pe, r[n], v[n], p[n], f[n], L[3]; };
template <int n> void addto(Tot<n>& T, double m, const double* r, const double* v, const double* a, double u, double pot) { double v2 = 0; T.m += m; for (int k = 0; k < n; k++) { v2 += v[k] * v[k]; T.r[k] += m * r[k]; T.v[k] += m * v[k]; T.p[k] += m * v[k]; T.f[k] += m * a[k]; } T.ke += 0.5 * m * v2; T.u += m * u; T.pe -= 0.5 * m * pot; if (n == 2) T.L[2] += m * (r[0] * v[1] - r[1] * v[0]); if (n == 3) for (int k = 0; k < 3; k++) { int i = (k + 1) % 3, j = (k + 2) % 3; T.L[k] += m * (r[i % n] * v[j % n] - r[j % n] * v[i % n]); } }
template <int n> void diag() {
  int np = OPT & 3, ns = (OPT >> 2) & 3, nk = ns && (OPT & 64) ? 1 : 0, deadp = np > 1 && (OPT & 128) ? gs_choose("dead", np) : -1; P.intparams["binary_stats"] = 0; Sim<n>* s = new Sim<n>(); Hyd<n>* h = new Hyd<n>((OPT & 16) ? 1 : 0, (OPT & 32) ? 1 : 0); s->hydro = h; GradhSphParticle<n>* p = new GradhSphParticle<n>[np + 1]; h->hydrodata_unsafe = p; h->Nhydro = np; Nbody<n>* nb = new NbodyLeapfrogKDK<n, M4Kernel>(0, 0, 0, 0.1, "m4"); s->nbody = nb; nb->stardata = new StarParticle<n>[ns + 1]; nb->Nstar = ns; Sinks<n>* sk = (Sinks<n>*)calloc(1, sizeof(Sinks<n>)); s->sinks = sk; SinkParticle<n> sink; sk->sink = &sink; sk->Nsink = nk; sink.istar = 0; Tot<n> T; memset(&T, 0, sizeof(T)); char b[8];
  for (int i = 0; i < np; i++) { p[i].m = Sg("m", i, 0, 0.1, 5); p[i].u = Sg("u", i, 0, 0.1, 5); p[i].gpot = Sg("pot", i, 0, 0, 5); for (int k = 0; k < n; k++) { p[i].r[k] = Sg("r", i, k, -3, 3); p[i].v[k] = Sg("v", i, k, -3, 3); p[i].a[k] = Sg("a", i, k, -3, 3); } if (i == deadp) p[i].flags.set(dead); else addto<n>(T, p[i].m, p[i].r, p[i].v, p[i].a, p[i].u, p[i].gpot); }
  for (int i = 0; i < ns; i++) { StarParticle<n>& q = nb->stardata[i]; q.m = Sg("ms", i, 0, 0.1, 5); q.gpot = Sg("spot", i, 0, 0, 5); for (int k = 0; k < n; k++) { q.r[k] = Sg("rs", i, k, -3, 3); q.v[k] = Sg("vs", i, k, -3, 3); q.a[k] = Sg("as", i, k, -3, 3); } addto<n>(T, q.m, q.r, q.v, q.a, 0, q.gpot); }
  for (int k = 0; k < 3; k++) { sink.angmom[k] = 0; if (nk) { sink.angmom[k] = Sg("J", 0, k, -3, 3); T.L[k] += sink.angmom[k]; } }
  s->Simulation<n>::CalculateDiagnostics(); Diagnostics<n>& d = s->diag; gs_check("counts", d.Nhydro == np && d.Nstar == ns && d.Ndead == (deadp >= 0 ? 1 : 0)); gs_check_close("total-mass", d.mtot, T.m, 10); gs_check_close("kinetic-energy", d.ketot, T.ke, 100); gs_check_close("thermal-energy", d.utot, T.u, 100); gs_check_close("potential-energy", d.gpetot, T.pe, 100); double E = T.ke; if (OPT & 16) E += T.u; if ((OPT & 32) || ns) E += T.pe; gs_check_close("total-energy", d.Etot, E, 100); for (int k = 0; k < n; k++) { gs_check_close("momentum", d.mom[k], T.p[k], 100); gs_check_close("force", d.force[k], T.f[k], 100); if (np + ns > (deadp >= 0)) { gs_check_close("centre-of-mass", d.rcom[k] * T.m, T.r[k], 100); gs_check_close("centre-of-mass-velocity", d.vcom[k] * T.m, T.v[k], 100); } } for (int k = 0; k < 3; k++) gs_check_close("angular-momentum", d.angmom[k], T.L[k], 100); gs_cover("diagnostics"); if (np + ns < 2) return;
  double R[4][n], V[4][n]; for (int i = 0; i < np; i++) for (int k = 0; k < n; k++) { R[i][k] = p[i].r[k]; V[i][k] = p[i].v[k]; } double Rs[4][n], Vs[4][n]; for (int i = 0; i < ns; i++) for (int k = 0; k < n; k++) { Rs[i][k] = nb->stardata[i].r[k]; Vs[i][k] = nb->stardata[i].v[k]; }
  s->Simulation<n>::SetComFrame(); for (int k = 0; k < n; k++) { double c = T.r[k] / T.m, w = T.v[k] / T.m; gs_check_close("frame-centre-at-origin", d.rcom[k], 0, 10); gs_check_close("frame-momentum-zero", d.mom[k], 0, 100); for (int i = 0; i < np; i++) { gs_check_close("frame-shift", p[i].r[k], R[i][k] - c, 10); gs_check_close("frame-shift", p[i].v[k], V[i][k] - w, 10); } for (int i = 0; i < ns; i++) { gs_check_close("frame-shift", nb->stardata[i].r[k], Rs[i][k] - c, 10); gs_check_close("frame-shift", nb->stardata[i].v[k], Vs[i][k] - w, 10); } } gs_cover("frame"); }
#endif
#ifdef P_O03
static void schedule() {
  P.intparams["binary_stats"] = 0; OSim<1>* s = new OSim<1>(); s->out_file_form = "column"; s->run_id = "/dev/null/gsym"; s->rank = 0; int N = OPT & 3 ? 3 : 2, max = 1 + gs_choose("max-steps", N); s->Nstepsmax = max; s->noutputstep = 128; s->ndiagstep = 1 + gs_choose("diag-every", 2); s->nrestartstep = 1 + gs_choose("restart-every", 2); s->nresync = 1 + (OPT & 4 ? gs_choose("resync", 2) : 0); s->n = 0; s->litesnap = (OPT & 8) ? 1 : 0; s->t = gs_real("t", 0, 1); double t0 = s->t, dt = s->dt_snap = gs_real("dt-snap", 0.01, 1), nx = s->tsnapnext = t0 + gs_real("next-snap", -0.5, 1), dl = s->dt_litesnap = gs_real("dt-lite", 0.01, 1), nl = s->tlitesnapnext = t0 + gs_real("next-lite", -0.5, 1), te = s->tend = t0 + gs_real("end", 0.1, 3); s->tmax_wallclock = 1e20; s->Noutsnap = 7; s->Noutlitesnap = 3; s->nlastrestart = 0; double t = t0; int es = 0, el = 0, steps = 0, ed = 0, nb = 0, er = 0, lastr = 0; bool stopped = false; for (int i = 0; i < N; i++) { char b[8]; sprintf(b, "dt%d", i); STEP[i] = gs_real(b, 0.001, 1); }
  if (OPT & 16) { t = t0 = s->t = 0.25; te = s->tend = 1.25; nx = s->tsnapnext = 0.25 * (1 + gs_choose("exact-next", 5)); dt = s->dt_snap = 0.5; nl = s->tlitesnapnext = 0.75; dl = s->dt_litesnap = 0.5; for (int i = 0; i < N; i++) STEP[i] = 0.5; } // due exactly
  s->SimulationBase::Run(-1);
  // the same history as it is documented: at most one snapshot per step, due times advance by the interval
  int n = 0; for (int i = 0; i < N && !stopped; i++) { if (!(t < te) || steps >= max) { stopped = true; break; } t = t + STEP[i]; steps++; n++; if (n > s->nresync) n = 1; if (n == s->nresync) nb++; if ((OPT & 8) && t >= nl) { el++; nl = nl + dl; } if (t >= nx) { es++; nx = nx + dt; } if (nb % s->ndiagstep == 0 && n % s->nresync == 0) ed++; if (n % s->nresync == 0 && steps - lastr >= s->nrestartstep) { er++; lastr = steps; } }
  gs_check("stops-at-end-time-or-step-limit", s->Nsteps == steps && nloop == steps); gs_check_close("time-reached", s->t, t, 10); gs_check("finalised-once", nfinal == 1); gs_check("snapshot-when-due", nsnap == es + er); gs_check("snapshot-number", s->Noutsnap == 7 + es); gs_check_close("next-snapshot-time", s->tsnapnext, nx, 10); gs_check("lite-snapshot-when-due", nlite == el && s->Noutlitesnap == 3 + el); gs_check_close("next-lite-snapshot-time", s->tlitesnapnext, nl, 10); gs_check("diagnostics-when-due", ndiag == ed + 1 && nout == ed + 1); gs_check("restart-when-due", s->nlastrestart == lastr); if (es) gs_check_close("last-snapshot-time", s->tsnaplast, nx - dt, 10); gs_cover(es > 1 ? "several-snapshots" : es ? "one-snapshot" : "no-snapshot"); if (t < te) gs_cover("step-limit"); else gs_cover("end-time"); }
#endif
#ifdef P_B01
template <int n> struct TI : TimeIntegration<n> { void SetActiveParticles(const int, Hydrodynamics<n>*) {} void AdvanceParticles(const int, const FLOAT, const FLOAT, Hydrodynamics<n>*) {} void CorrectionTerms(const int, const FLOAT, const FLOAT, Hydrodynamics<n>*) {} void EndTimestep(const int, const FLOAT, const FLOAT, Hydrodynamics<n>*) {} int CheckTimesteps(const int, const int, const int, const FLOAT, Hydrodynamics<n>*) { return 0; } DOUBLE Timestep(Particle<n>&, Hydrodynamics<n>*) { return 1; } };
static const boundaryEnum KIND[4] = {openBoundary, periodicBoundary, mirrorBoundary, wallBoundary};
template <int n, class Q> void beforeafter(Q& q, const Q& o, DomainBox<n>& box) {
  for (int k = 0; k < n; k++) { double lo = box.min[k], hi = box.max[k], L = box.size[k]; int sg = 1; double sh = 0; bool out = false; boundaryEnum b = openBoundary; double r = o.r[k], pl = 0; if (r < lo) { b = box.boundary_lhs[k]; pl = 2 * lo; sh = L; out = true; } else if (r > hi) { b = box.boundary_rhs[k]; pl = 2 * hi; sh = -L; out = true; } double er = r, er0 = o.r0[k]; if (b == periodicBoundary) { er = er + sh; er0 = er0 + sh; } if (b == mirrorBoundary || b == wallBoundary) { sg = -1; er = pl - er; er0 = pl - er0; }
    const char* lab = b == periodicBoundary ? "wrapped-by-one-box-length" : sg < 0 ? "reflected-in-the-boundary" : "left-alone"; gs_check_close(lab, q.r[k], er, 10); gs_check_close(lab, q.r0[k], er0, 10); gs_check_close(lab, q.v[k], sg * o.v[k], 10); gs_check_close(lab, q.v0[k], sg * o.v0[k], 10); gs_check_close(lab, q.a[k], sg * o.a[k], 10); gs_check_close(lab, q.a0[k], sg * o.a0[k], 10); if (b != openBoundary) gs_check("back-inside", q.r[k] >= lo - 1e-6 && q.r[k] <= hi + 1e-6); gs_cover(!out ? "inside" : b == openBoundary ? "open" : b == periodicBoundary ? "periodic" : "mirror"); } }
template <int n> void bound() { // OPT: boundary kinds of the dimensions as base-16 digits (lhs + 4 rhs)
  DomainBox<n> box; int o = OPT; for (int k = 0; k < n; k++) { double c = Sg("c", 0, k, -2, 2), L = Sg("L", 0, k, 1, 4); box.min[k] = c; box.max[k] = c + L; box.size[k] = L; box.half[k] = L / 2; int kk = k == 0 && n == 1 ? gs_choose("kinds", 16) : o % 16; o /= 16; box.boundary_lhs[k] = KIND[kk % 4]; box.boundary_rhs[k] = KIND[kk / 4]; if ((kk % 4 == 1) != (kk / 4 == 1)) gs_end(); } for (int k = n; k < 3; k++) box.boundary_lhs[k] = box.boundary_rhs[k] = openBoundary;
  GradhSphParticle<n> p[2]; StarParticle<n> st; NbodyParticle<n>* sp = &st; bool inb = true; (void)inb; for (int k = 0; k < n; k++) { p[0].r[k] = box.min[k] + box.size[k] * Sg("x", 0, k, -0.95, 1.95); p[0].r0[k] = p[0].r[k] + Sg("x0", 0, k, -1, 1); p[0].v[k] = Sg("v", 0, k, -3, 3); p[0].v0[k] = Sg("v0", 0, k, -3, 3); p[0].a[k] = Sg("a", 0, k, -3, 3); p[0].a0[k] = Sg("a0", 0, k, -3, 3); st.r[k] = p[0].r[k]; st.r0[k] = p[0].r0[k]; st.v[k] = p[0].v[k]; st.v0[k] = p[0].v0[k]; st.a[k] = p[0].a[k]; st.a0[k] = p[0].a0[k]; gs_assume(p[0].r[k] != box.min[k]); gs_assume(p[0].r[k] != box.max[k]); }
  p[1] = p[0]; GradhSphParticle<n> old = p[0]; StarParticle<n> ost = st; Hyd<n> h(1, 0); h.hydrodata_unsafe = p; h.Nhydro = 2; TI<n> ti; ti.CheckBoundaries(box, &h); beforeafter<n>(p[0], old, box); beforeafter<n>(p[1], old, box); Nbody<n>* nb = new NbodyLeapfrogKDK<n, M4Kernel>(0, 0, 0, 0.1, "m4"); nb->CheckBoundaries(0, 1, 0.0, 0.0, box, &sp); beforeafter<n>(st, ost, box); }
#endif
#ifdef P_N04
template <class X> struct typename_of; template <class X> struct typename_of<X*> { typedef X T; };
static void table() { int N = OPT, ns = 2; Nbody<1>* nb = new NbodyLeapfrogKDK<1, M4Kernel>(0, 0, 0, 0.1, "m4"); nb->Nstellartable = N; nb->stellartable = new typename_of<decltype(nb->stellartable)>::T[N]; double m[6], q[6], x = gs_real("m0", 1, 10); for (int i = 0; i < N; i++) { m[i] = x; nb->stellartable[i].mass = x; char b[8]; sprintf(b, "dm%d", i); x = x + gs_real(b, 0.5, 10); sprintf(b, "q%d", i); nb->stellartable[i].NLyC = q[i] = gs_real(b, 40, 50); } StarParticle<1> st[2]; NbodyParticle<1>* d[2] = {&st[0], &st[1]}; nb->nbodydata = d; nb->stardata = st; nb->Nstar = nb->Nnbody = ns; st[0].m = gs_real("m", 0.05, 100); if (N == 0) { st[0].NLyC = 17; nb->UpdateStellarProperties(); gs_check("no-table-nothing-set", st[0].NLyC == 17); gs_cover("empty"); return; } int at = gs_choose("row", N); st[1].m = m[at]; nb->UpdateStellarProperties();
  double L = log10(st[0].NLyC), ms = st[0].m; gs_check_close("row-value-at-its-mass", log10(st[1].NLyC), q[at], 10); if (ms <= m[0]) { gs_check_close("below-the-table-first-row", L, q[0], 10); gs_cover("below"); return; } if (ms >= m[N - 1]) { gs_check_close("above-the-table-last-row", L, q[N - 1], 10); gs_cover("above"); return; }
  for (int i = 0; i + 1 < N; i++) if (ms >= m[i] && ms < m[i + 1]) { double lo = q[i], hi = q[i + 1]; gs_check_close("linear-in-mass-between-rows", (L - lo) * (m[i + 1] - m[i]), (hi - lo) * (ms - m[i]), 100); gs_cover("between"); } }
#endif
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[3] = {1, 0, 0}; for (int i = 0; i < 3; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } OPT = v[1];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, v[0]) }
#ifdef P_O02
  T(diag)
#endif
#ifdef P_O03
  schedule();
#endif
#ifdef P_B01
  T(bound)
#endif
#ifdef P_N04
  table();
#endif
}
