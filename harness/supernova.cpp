// F01: supernova injection and schedules
#include "gsym.h"
#include "hydrostub.h"
#include "Sph.h"
#include "MeshlessFV.h"
#include "Nbody.h"
#include "Integration.h"
#include "Simulation.h"
#include "NeighbourSearch.h"
#include "RandomNumber.h"
static Parameters P; static SimUnits U; static int OPT = 0;
enum { GHOST = 1, MIRROR = 2, CORNER = 4, SMALL = 8, EXACT = 16, REJECT = 32, DEADONE = 64 };
static const double C[3] = {0.125, -0.0625, 0.1875};
#ifdef DRIVER
// ---- schedules: what the drivers ask for, with the table stream replaced by symbolic values
static int calls; static double lastpos[3], lastE, lastM, lastR, lastRtk; static int lastid;
#include "Supernova.h"
template <int n> void Supernova<n>::SupernovaInjection(const int, const int, const int, const int id, FLOAT, FLOAT* x, FLOAT E, FLOAT r, FLOAT M, FLOAT R, Hydrodynamics<n>*, NeighbourSearch<n>*, RandomNumber*) { calls++; lastid = id; for (int k = 0; k < n; k++) lastpos[k] = x[k]; lastE = E; lastM = M; lastR = R; lastRtk = r; }
template class Supernova<1>; template class Supernova<2>; template class Supernova<3>;
static int rows, said, present; static double tab[4][5];
struct FakeFile { int at; FakeFile() { at = 0; } void open(const char*, std::ios_base::openmode = std::ios::in) {} bool good() { return present; } void close() {} operator bool() const { return at <= rows + 2; } };
static FakeFile& getline(FakeFile& f, std::string& s) { s.assign(1, 'a' + f.at); f.at++; return f; }
struct FakeString { int row, col; FakeString(const std::string& s) { row = s[0] - 'a' - 2; col = 0; } FakeString& operator>>(int& i) { i = said; return *this; } FakeString& operator>>(double& d) { d = tab[row][col++]; return *this; } operator bool() const { return true; } };
#define ifstream FakeFile
#define istringstream FakeString
#define good() good()
#include "Feedback/SupernovaDriver.cpp"
#undef ifstream
#undef istringstream
template <int n> static void silcc() { U.m.outscale = 2; U.r.outscale = 0.5; U.r.outcgs = 4; U.t.outscale = 0.25; U.t.outcgs = 2; U.E.outscale = 8; U.E.outcgs = 0.5; double M = P.floatparams["Minj"] = gs_real("M", 0.1, 10), R = P.floatparams["Rinj"] = gs_real("R", 0.1, 10), f = P.floatparams["R_therm_kin"] = gs_real("f", 0.1, 10); P.stringparams["SNfile_name"] = "sn.dat"; present = (OPT & 1) ? 0 : 1; rows = 2; said = 1 + gs_choose("announced", 3); double tt = 0; for (int i = 0; i < rows; i++) { tab[i][0] = tt = tt + Sg("gap", i, 0, 0.0, 2); for (int j = 1; j < 5; j++) tab[i][j] = Sg("tab", i, j, 0.1, 10); }
  SilccSupernovaDriver<n>* d = new SilccSupernovaDriver<n>(NULL, &P, U); int known = !present ? 0 : rows < said ? rows : said, done = 0; double t = -0.5; for (int s = 0; s < 4; s++) { t = t + Sg("dt", s, 0, 0.01, 3); calls = 0; d->Update(0, 1, 0, t, NULL, NULL, NULL); bool due = done < known && t >= tab[done][0] / 0.5; gs_check("one-explosion-when-due", calls == (due ? 1 : 0)); if (!due) { gs_cover("waits"); continue; }
    gs_check("in-order", lastid == done); for (int k = 0; k < n; k++) gs_check_close("where-the-table-says", lastpos[k], tab[done][1 + k] / 2, 10); gs_check_close("energy-from-the-table", lastE, tab[done][4] / 4, 10); gs_check_close("mass-radius-ratio", lastM, M / 2, 10); gs_check_close("mass-radius-ratio", lastR, R * 2, 10); gs_check_close("mass-radius-ratio", lastRtk, f, 10); done++; gs_cover("explodes"); }
  if (done == known) gs_cover("all-done"); }
struct HalfRand : RandomNumber { int intrand() { return 0; } long int longintrand() { return 0; } double f[3]; int at; FLOAT floatrand() { return f[at++]; } DOUBLE doublerand() { return 0; } FLOAT gaussrand(FLOAT, FLOAT) { return 0; } void PrintRandomNumberRange() {} };
template <int n> struct Hyd : NullHydrodynamics<n> { Hyd() : NullHydrodynamics<n>(1, 0, 1.2, "energy_eqn", "m4", sizeof(GradhSphParticle<n>), U, &P) {} };
template <int n> static void sedov() { GradhSphParticle<n> p[1]; p[0].h = gs_real("h", 0.1, 2); Hyd<n> h; h.hydrodata_unsafe = p; h.Nhydro = 1; DomainBox<n> box; for (int k = 0; k < n; k++) { box.min[k] = Sg("lo", 0, k, -2, 2); box.size[k] = Sg("L", 0, k, 1, 4); box.max[k] = box.min[k] + box.size[k]; } SupernovaDriver<n>* d; if (OPT) d = new RandomSedovTestDriver<n>(NULL, &P, U, box); else d = new SedovTestDriver<n>(NULL, &P, U); HalfRand r; int done = 0; double t = 0;
  for (int s = 0; s < 3; s++) { t = t + Sg("dt", s, 0, 0.01, 1.5); r.at = 0; for (int k = 0; k < 3; k++) r.f[k] = gs_real("x", 0, 1); calls = 0; d->Update(0, 1, 0, t, &h, NULL, &r); bool due = OPT ? t >= (done ? done + 0.5 : 0.5) * 0.5 : !done && t >= 1; gs_check("one-explosion-when-due", calls == (due ? 1 : 0)); if (!due) { gs_cover("waits"); continue; } gs_check("in-order", lastid == done); gs_check_close("mass-radius-ratio", lastR, p[0].h, 1); for (int k = 0; k < n; k++) { if (OPT) { gs_check_le("inside-the-box", box.min[k], lastpos[k], 1); gs_check_le("inside-the-box", lastpos[k], box.max[k], 1); } else gs_check("at-the-origin", lastpos[k] == 0); } gs_check("energy-from-the-table", lastE == 0.01 && lastM == 0.005); done++; gs_cover("explodes"); } }
#else
#include "Supernova.h"
#ifdef MFVG
template <int n> struct Kind { typedef MeshlessFVParticle<n> Part; };
#else
template <int n> struct Kind { typedef GradhSphParticle<n> Part; };
#endif
template <int n> struct Finder : public NeighbourSearch<n> { int calls, small, ntot; Finder() { calls = small = 0; }
  int GetGatherNeighbourList(FLOAT* rp, FLOAT rs, Particle<n>* p, int, int cap, int* l) { calls++; if (small && cap < 200) return -1; typename Kind<n>::Part* q = (typename Kind<n>::Part*)p; int m = 0; for (int i = 0; i < ntot; i++) { double d2 = 0; for (int k = 0; k < n; k++) d2 += (q[i].r[k] - rp[k]) * (q[i].r[k] - rp[k]); if (d2 < rs * rs && !q[i].flags.is_dead()) l[m++] = i; } return m; }
  void BuildTree(const bool, const int, const int, const int, const FLOAT, Hydrodynamics<n>*) {} void BuildGhostTree(const bool, const int, const int, const int, const FLOAT, Hydrodynamics<n>*) {} void SearchBoundaryGhostParticles(FLOAT, const DomainBox<n>&, Hydrodynamics<n>*) {} void UpdateActiveParticleCounters(Hydrodynamics<n>*) {} void UpdateAllStarGasForces(Hydrodynamics<n>*, Nbody<n>*, DomainBox<n>&, Ewald<n>*) {} void UpdateAllProperties(Hydrodynamics<n>*, Nbody<n>*) {} double GetMaximumSmoothingLength() const { return 0; } TreeBase<n>* GetTree() const { return 0; } TreeBase<n>* GetGhostTree() const { return 0; } void SetTimingObject(CodeTiming*) {} void ToggleNeighbourCheck(bool) {} void UpdateTimestepsLimitsFromDistantParticles(Hydrodynamics<n>*, const bool) {} MAC_Type GetOpeningCriterion() const { return geometric; } void SetOpeningCriterion(MAC_Type) {} };
struct Rand : RandomNumber { int reject; Rand() { reject = 0; } int intrand() { return 0; } long int longintrand() { return 0; } FLOAT floatrand() { if (reject > 0) { reject--; return 0; } return (OPT & EXACT) ? 0.375 : gs_real("rnd", 0.25, 0.45); } DOUBLE doublerand() { return 0; } FLOAT gaussrand(FLOAT, FLOAT) { return 0; } void PrintRandomNumberRange() {} };
template <int n> static void out(const double* dr, const double* v) { double d = 0; for (int k = 0; k < n; k++) d += dr[k] * v[k]; gs_check("points-away-from-the-explosion", d > 0); for (int k = 1; k < n; k++) gs_check_close("points-away-from-the-explosion", dr[0] * v[k], dr[k] * v[0], 1); }
template <int n> static void kept(const char* lab, Particle<n>& q, Particle<n>& o) { gs_check_close(lab, q.m, o.m, 1); gs_check_close(lab, q.u, o.u, 10); for (int k = 0; k < n; k++) { gs_check_close(lab, q.v[k], o.v[k], 10); gs_check_close(lab, q.r[k], o.r[k], 10); } }
template <int n> static void inject() { typedef typename Kind<n>::Part Part; int N = (OPT & DEADONE) ? 3 : 2; P.intparams["hydro_forces"] = 1; P.stringparams["dust_forces"] = "none"; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; P.intparams["zero_mass_flux"] = P.intparams["static_particles"] = 0; P.stringparams["riemann_solver"] = "exact"; P.stringparams["slope_limiter"] = "null"; P.stringparams["viscosity_option"] = "none"; P.stringparams["gas_eos"] = "energy_eqn"; P.stringparams["time_step_limiter"] = "none";
#ifdef MFVG
  MeshlessFV<n>* s = new MfvMuscl<n, M4Kernel, NullLimiter<n> >(1, 0, 0.5, 0.5, 1.2, 0.01, 1.4, "energy_eqn", "m4", sizeof(Part), U, &P); TimeIntegration<n>* ti = new MfvIntegration<n, MeshlessFVParticle>(&P);
#else
  Sph<n>* s = new GradhSph<n, M4Kernel>(1, 0, 1, 2, 1.2, 0.01, mon97, noac, notdav, "energy_eqn", "m4", U, &P); TimeIntegration<n>* ti = new SphLeapfrogKDK<n, GradhSphParticle>(0.1, 0.1, 0.1, energy_eqn, notdav);
#endif
  ti->timing = new CodeTiming(); s->eos = new Adiabatic<n>(&P, &U); s->AllocateMemory(12); s->Nhydro = N; s->mmean = 0.5; s->kernp = new M4Kernel<n>("m4"); s->kernrange = 2; Part* p = (Part*)s->GetParticleArrayUnsafe(); double t = 2, dt = 0.25; int nn = 6, lmax = 2;
  for (int i = 0; i < N; i++) { Part& q = p[i]; q.iorig = i; q.ptype = gas_type; q.m = 0.5; q.h = 0.5; q.rho = 1; q.level = i ? 2 : 0; q.nstep = i ? 2 : 8; q.nlast = i ? 4 : 0; q.tlast = t - dt * (nn - q.nlast); q.dt = dt * q.nstep; q.u = Sg("u", i, 0, 0.5, 2); q.u0 = Sg("u0", i, 0, 0.5, 2); q.dudt0 = Sg("du0", i, 0, -0.125, 1); q.dudt = Sg("du", i, 0, -1, 1); if (i) q.flags.set(active); for (int k = 0; k < n; k++) { q.r[k] = C[k] + (k == i % n ? Sg("x", i, k, 0.25, 0.75) : 0.0625 * (k + 1 + i)); q.v[k] = Sg("v", i, k, -1, 1); q.v0[k] = Sg("v0", i, k, -1, 1); q.a[k] = Sg("a", i, k, -1, 1); q.a0[k] = Sg("a0", i, k, -1, 1); q.r0[k] = q.r[k] - 0.125; }
#ifdef MFVG
    q.u = 1.5; for (int k = 0; k < n; k++) q.rdmdt[k] = q.rdmdt0[k] = 0.25; for (int k = 0; k < n + 2; k++) { q.Qcons0[k] = Sg("Q", i, k, 0.5, 1); q.dQ[k] = Sg("dQ", i, k, -0.25, 0.25); q.dQdt[k] = 0.125; } q.Qcons0[n] = 0.5; q.dQ[n] = 0; q.Qcons0[n + 1] = 10; q.cooling = 0.5; q.ndens = 2;
#endif
  }
  int tot = N; if (OPT & (GHOST | MIRROR)) { p[N] = p[1]; p[N].iorig = 1; p[N].flags.set((OPT & MIRROR) ? mirror_bound_flags[0][0] : periodic_bound_flags[0][0]); p[1].r[0] += 3; p[1].r0[0] += 3; if (OPT & MIRROR) p[N].v[0] = -p[1].v[0]; tot++; if ((OPT & CORNER) && n > 1) { p[N + 1] = p[N]; p[N + 1].iorig = N; p[N].r[n - 1] += 3; tot++; } }
  if (OPT & DEADONE) p[2].flags.set(dead); for (int i = tot; i < 12; i++) { p[i] = p[0]; p[i].dt = 0.75; p[i].u0 = 9; p[i].dudt0 = 5; p[i].flags.set(dead); } s->Ntot = tot;
  SimulationBase* sim = (SimulationBase*)calloc(1, sizeof(SimulationBase)); sim->level_max = lmax; sim->level_step = lmax + 1; sim->n = nn; sim->t = t; sim->timestep = dt; Finder<n> f; f.ntot = tot; f.small = (OPT & SMALL) ? 1 : 0; Rand rn; rn.reject = (OPT & REJECT) ? n : 0; double E = gs_real("E", 0.1, 10), R = gs_real("ratio", 0.1, 10), M = gs_real("M", 0.01, 1.4), rad = (OPT & (GHOST | MIRROR | REJECT)) ? 2 : gs_real("rad", 0.3, 0.8); if (OPT & REJECT) M = 0.75; Part old[6]; for (int i = 0; i < tot; i++) old[i] = p[i]; double x[3]; for (int k = 0; k < n; k++) x[k] = C[k];
  Supernova<n> sn(sim); sn.SupernovaInjection(nn, lmax + 1, lmax, 0, t, x, E, R, M, rad, s, &f, &rn); p = (Part*)s->GetParticleArrayUnsafe();
  int add = M < 0.5 ? 0 : M < 1 ? 1 : 2, in = 0; gs_check("whole-particles-injected", s->Nhydro == N + add && s->Ntot == tot + add); gs_check("tree-rebuilt-for-new-particles", !add || sim->rebuild_tree); double th = 0, ke = 0; bool touched[6] = {false, false, false, false, false, false};
  for (int i = 0; i < N; i++) { bool inside = false; double dr[3]; for (int j = 0; j < tot; j++) { int o = j; while (o >= N) o = old[o].iorig; if (o != i || old[j].flags.is_mirror() || old[j].flags.is_dead()) continue; double d2 = 0; for (int k = 0; k < n; k++) d2 += (old[j].r[k] - C[k]) * (old[j].r[k] - C[k]); if (d2 < rad * rad) { inside = true; for (int k = 0; k < n; k++) dr[k] = old[j].r[k] - C[k]; } }
    gs_check("mass-and-position-kept", p[i].m == old[i].m && p[i].r[0] == old[i].r[0] && p[i].r[n - 1] == old[i].r[n - 1]); if (inside) { in++; touched[i] = true; th += p[i].m * (p[i].u - old[i].u); for (int k = 0; k < n; k++) ke += 0.5 * p[i].m * p[i].v[k] * p[i].v[k]; out<n>(dr, p[i].v); gs_cover("swept-up"); } else { bool same = p[i].u == old[i].u && p[i].u0 == old[i].u0 && p[i].nlast == old[i].nlast; for (int k = 0; k < n; k++) same &= p[i].v[k] == old[i].v[k] && p[i].a[k] == old[i].a[k] && p[i].v0[k] == old[i].v0[k]; gs_check("outside-untouched", same); gs_cover("outside"); } }
  for (int i = N; i < N + add; i++) { Part& q = p[i]; double dr[3], d2 = 0; for (int k = 0; k < n; k++) { dr[k] = q.r[k] - C[k]; d2 += dr[k] * dr[k]; } touched[i] = true; gs_check_le("inside-the-sphere", d2, rad * rad, 1); gs_check("new-particle-is-gas-of-mean-mass", q.m == 0.5 && q.ptype == gas_type && !q.flags.is_dead() && q.flags.check(active) && q.iorig == i && q.level == lmax && q.nlast + q.nstep == nn); th += q.m * q.u; for (int k = 0; k < n; k++) ke += 0.5 * q.m * q.v[k] * q.v[k]; out<n>(dr, q.v); gs_cover("injected"); }
  if (in + add) { gs_check_close("thermal-share-of-the-energy", th * (1 + R), E * R, 10); gs_check_close("kinetic-share-of-the-energy", ke * (1 + R), E, 10); } else gs_cover("nothing-there");
  if (OPT & EXACT) { // the next drift of the same instant and the end of the step keep what was given
    Part now[6]; for (int i = 0; i < s->Nhydro; i++) now[i] = p[i]; 
#ifndef MFVG
    ti->AdvanceParticles(nn, t, dt, s); for (int i = 0; i < s->Nhydro; i++) if (touched[i]) kept<n>("kept-by-the-next-drift", p[i], now[i]);
#endif
    for (int i = 0; i < s->Nhydro; i++) if (touched[i]) { gs_check("begins-a-new-step", p[i].flags.check(active) && p[i].nlast + p[i].nstep == nn); for (int k = 0; k < n; k++) p[i].a[k] = 0.75; p[i].dudt = 0.5; p[i].flags.set(end_timestep); }
    ti->EndTimestep(nn, t, dt, s); for (int i = 0; i < s->Nhydro; i++) if (touched[i]) kept<n>("kept-at-the-end-of-the-step", p[i], now[i]); gs_cover("kept"); } }
#endif
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[2] = {1, 0}; for (int i = 0; i < 2; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } OPT = v[1];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, v[0]) }
#ifdef DRIVER
  T(silcc) T(sedov)
#else
  T(inject)
#endif
}
