// B03: boundary ghosts: created for every particle that can reach a boundary, exact images of their originals
#include "gsym.h"
#include "hydrostub.h"
#include "Ghosts.h"
#include "NeighbourSearch.h"
#ifdef MFVG
#include "MeshlessFV.h"
#include "MfvNeighbourSearch.h"
template <int n> struct Kind { typedef MeshlessFVParticle<n> Part; typedef MeshlessFVTree<n, MeshlessFVParticle> Search; typedef PeriodicGhostsSpecific<n, MeshlessFVParticle> Ghosts; };
#else
#include "Sph.h"
#include "SphNeighbourSearch.h"
template <int n> struct Kind { typedef GradhSphParticle<n> Part; typedef GradhSphTree<n, GradhSphParticle> Search; typedef PeriodicGhostsSpecific<n, GradhSphParticle> Ghosts; };
#endif
#ifdef MFVG
#define ARRAY(s) (s)->template GetParticleArray<MeshlessFVParticle>()
#else
#define ARRAY(s) (s)->template GetParticleArray<GradhSphParticle>()
#endif
static Parameters P; static SimUnits U; static int NP = 2, OPT = 0;
enum { MOVING = 1, NUMERICH = 2, DEADONE = 4, ROOM = 8, OCT = 16, BND = 64 }; // two bits per dimension from bit 6: 0 open, 1 periodic, 2 mirror on the left, 3 mirror on both sides
static const double X[3][3] = {{0.625, -0.75, 0.5}, {-0.5625, 0.40625, -0.8125}, {0.15625, 0.8125, 0.34375}};
template <int n> Hydrodynamics<n>* gas() { P.intparams["hydro_forces"] = 1; P.stringparams["dust_forces"] = "none"; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; P.intparams["create_sinks"] = 0; P.intparams["zero_mass_flux"] = 0; P.intparams["static_particles"] = 0; P.stringparams["riemann_solver"] = "exact"; P.stringparams["slope_limiter"] = "null"; P.stringparams["viscosity_option"] = "none";
#ifdef MFVG
  return new MfvMuscl<n, M4Kernel, NullLimiter<n> >(1, 0, 0.5, 0.5, 1.2, 0.01, 1.4, "energy_eqn", "m4", sizeof(MeshlessFVParticle<n>), U, &P);
#else
  return new GradhSph<n, M4Kernel>(1, 0, 1, 2, 1.2, 0.01, mon97, noac, notdav, "energy_eqn", "m4", U, &P);
#endif
}
static int bit(int k, int lhs, int mir) { return mir ? mirror_bound_flags[k][!lhs] : periodic_bound_flags[k][!lhs]; }
template <int n> static void fill(typename Kind<n>::Part& q, int i, const char* tag) { q.m = Sg("m", i, 0, 0.5, 2); q.rho = Sg(tag, i, 0, 0.5, 3); q.u = Sg(tag, i, 1, 0.5, 3); q.sound = Sg(tag, i, 2, 0.5, 3);
#ifdef MFVG
  for (int a = 0; a < n + 2; a++) { q.Wprim[a] = Sg(tag, i, 10 + a, -2, 2); q.dQ[a] = Sg(tag, i, 20 + a, -2, 2); q.dQdt[a] = Sg(tag, i, 30 + a, -2, 2); for (int b = 0; b < n; b++) q.grad[a][b] = Sg(tag, i, 40 + 3 * a + b, -2, 2); } for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) q.B[a][b] = Sg(tag, i, 60 + 3 * a + b, -2, 2);
#else
  q.alpha = Sg(tag, i, 3, 0.1, 1); q.div_v = Sg(tag, i, 4, -1, 1); q.invomega = Sg(tag, i, 5, 0.5, 2); q.pressure = Sg(tag, i, 6, 0.5, 2); q.gpot = Sg(tag, i, 7, 0.5, 2);
#endif
}
// ghost g of original o: the given side and kind of boundary along dimension k
template <int n> static void image(typename Kind<n>::Part& g, typename Kind<n>::Part& o, int k, int lhs, int mir, DomainBox<n>& box, bool all) {
  for (int a = 0; a < n; a++) { double want = a != k ? o.r[a] : mir ? 2 * (lhs ? box.min[a] : box.max[a]) - o.r[a] : o.r[a] + (lhs ? 1 : -1) * box.size[a]; gs_check_close("position-is-that-of-the-image", g.r[a], want, 1); double s = a == k && mir ? -1 : 1; gs_check("velocity-is-that-of-the-image", g.v[a] == s * o.v[a]); if (all) gs_check("acceleration-is-that-of-the-image", g.a[a] == s * o.a[a]); }
  gs_check("same-mass-and-density", g.m == o.m && g.rho == o.rho); gs_check("same-smoothing-length", g.h == o.h && g.hrangesqd == o.hrangesqd); gs_check("same-thermal-state", g.u == o.u && g.sound == o.sound); gs_check("same-level-and-type", g.level == o.level && g.ptype == o.ptype); gs_check("ghosts-are-not-active", !g.flags.check(active)); gs_check("ghosts-are-not-dead", !g.flags.is_dead());
#ifdef MFVG
  if (all) for (int a = 0; a < n + 2; a++) { double s = a == k && mir ? -1 : 1; gs_check("flow-variables-are-those-of-the-image", g.Wprim[a] == s * o.Wprim[a] && g.dQ[a] == s * o.dQ[a] && g.dQdt[a] == s * o.dQdt[a]); for (int b = 0; b < n; b++) { double t = b == k && mir ? -1 : 1; gs_check("gradients-are-those-of-the-image", g.grad[a][b] == s * t * o.grad[a][b]); if (a < n) gs_check("matrix-is-that-of-the-image", g.B[a][b] == s * t * o.B[a][b]); } }
#else
  if (all) gs_check("same-derived-state", g.alpha == o.alpha && g.div_v == o.div_v && g.invomega == o.invomega && g.pressure == o.pressure && g.gpot == o.gpot);
#endif
}
template <int n> static void ghost() { typedef typename Kind<n>::Part Part; Hydrodynamics<n>* s = gas<n>(); s->AllocateMemory((OPT & ROOM) ? 60 : NP + 1); s->Nhydro = s->Ntot = NP; s->kernrange = 2; DomainBox<n> box; bool per[3], mirL[3], mirR[3]; for (int k = 0; k < 3; k++) { int b = k < n ? (OPT / BND >> (2 * k)) & 3 : 0; per[k] = b == 1; mirL[k] = b >= 2; mirR[k] = b == 3; box.boundary_lhs[k] = b == 0 ? openBoundary : b == 1 ? periodicBoundary : mirrorBoundary; box.boundary_rhs[k] = b == 1 ? periodicBoundary : b == 3 ? mirrorBoundary : openBoundary; box.min[k] = -1; box.max[k] = 1.25; box.size[k] = 2.25; box.half[k] = 1.125; } box.PeriodicGravity = 0;
  CodeTiming tm; ParticleTypeRegister types(&P); M4Kernel<n> kern("m4"); typename Kind<n>::Search ns((OPT & OCT) ? "octtree" : "kdtree", 1, 1, 1, 1, 0.49, 2.0, 0.01, "geometric", "monopole", &box, &kern, &tm, types); double tg = (OPT & MOVING) ? gs_real("lifetime", 0.01, 0.2) : 0;
  Part* p = ARRAY(s); for (int i = 0; i < NP; i++) { Part& q = p[i]; fill<n>(q, i, "f"); q.iorig = i; q.level = 2; q.flags.set(active); q.h = (OPT & NUMERICH) ? 0.0625 + 0.03125 * i : i ? 0.09375 : Sg("h", i, 0, 0.03, 0.2); q.hrangesqd = 4 * q.h * q.h; for (int k = 0; k < n; k++) { q.r[k] = X[i][k] + (i == 0 && k == 0 ? Sg("x", i, k, -1.6, 0.6) : 0); q.v[k] = (OPT & MOVING) ? (k == 0 || i == 0 ? Sg("v", i, k, -3, 3) : 0.25) : 0.5 * X[i][k]; q.a[k] = Sg("a", i, k, -1, 1); } }
  if (OPT & DEADONE) p[NP - 1].flags.set(dead); ns.BuildTree(true, 0, 1, 1, 0.1, s); p = ARRAY(s); int N = s->Nhydro; gs_check("dead-removed", N == ((OPT & DEADONE) ? NP - 1 : NP)); ns.SearchBoundaryGhostParticles(tg, box, s); p = ARRAY(s); int G = s->NPeriodicGhost; gs_check("counts-agree", s->Nghost == G && s->Ntot == N + G && s->Nhydro == N && s->Nhydromax >= N + G);
  int has[3][27] = {{0}}; int wh[60] = {0}, comb[60] = {0}; for (int g = N; g < N + G; g++) { int o = p[g].iorig; gs_check("original-comes-first", o >= 0 && o < g); int root = o < N ? o : wh[o], c = o < N ? 0 : comb[o]; int f = p[g].flags.get(), fo = p[o].flags.get(), found = 0; for (int k = 0; k < n; k++) for (int lhs = 0; lhs < 2; lhs++) for (int mir = 0; mir < 2; mir++) if ((f & bit(k, lhs, mir)) && !(fo & bit(k, lhs, mir))) { found++; gs_check("only-across-boundaries-of-its-kind", mir ? (lhs ? mirL[k] : mirR[k]) : per[k]); image<n>(p[g], p[o], k, lhs, mir, box, false); int pw = k == 0 ? 1 : k == 1 ? 3 : 9; gs_check("each-boundary-once", (c / pw) % 3 == 0); c += pw * (lhs ? 1 : 2); } gs_check("one-boundary-per-ghost", found == 1); wh[g] = root; comb[g] = c; has[root][c]++; }
  // every image that can come within reach exists, once
  for (int i = 0; i < N; i++) { Part& q = p[i]; int can[3][3]; for (int k = 0; k < n; k++) { double x = q.r[k], dx = q.v[k] * tg, R = 2 * q.h; can[k][0] = 1; can[k][1] = (per[k] || mirL[k]) && (x + dx - R < box.min[k] || x - R < box.min[k]); can[k][2] = (per[k] || mirR[k]) && (x + dx + R > box.max[k] || x + R > box.max[k]); } int tot = n == 1 ? 3 : n == 2 ? 9 : 27; for (int c = 1; c < tot; c++) { bool need = can[0][c % 3] && (n < 2 || can[1 % n][(c / 3) % 3]) && (n < 3 || can[2 % n][c / 9]); gs_check("no-duplicate-ghosts", has[i][c] <= 1); if (need) { gs_check("every-reaching-particle-has-its-ghost", has[i][c] == 1); gs_cover(c == 4 || c == 8 || c > 9 ? "corner" : "reaches"); } } }
  for (int i = 0; i < N; i++) { fill<n>(p[i], i, "g"); for (int k = 0; k < n; k++) { p[i].r[k] += Sg("dr", i, k, -0.1, 0.1); p[i].v[k] = Sg("nv", i, k, -1, 1); p[i].a[k] = Sg("na", i, k, -1, 1); } p[i].h *= 1.1; p[i].flags.set(active); p[i].level = 3; }
  typename Kind<n>::Ghosts gh; gh.CopyHydroDataToGhosts(box, s); for (int g = N; g < N + G; g++) { int o = p[g].iorig, f = p[g].flags.get(), fo = p[o].flags.get(), hi = -1, w = 0, m = 0; for (int k = 0; k < n; k++) for (int lhs = 0; lhs < 2; lhs++) for (int mir = 0; mir < 2; mir++) if ((f & bit(k, lhs, mir)) && !(o >= N && (fo & bit(k, lhs, mir)))) { hi = k; w = lhs; m = mir; } gs_check("still-one-boundary-per-ghost", hi >= 0); if (hi >= 0) image<n>(p[g], p[o], hi, w, m, box, true); gs_cover(m ? "mirror-copy" : "periodic-copy"); } if (!G) gs_cover("no-ghost"); }
template <int n> static void copy() { typedef typename Kind<n>::Part Part; DomainBox<n> box; for (int k = 0; k < n; k++) { box.min[k] = -1; box.max[k] = 1.25; box.size[k] = 2.25; } for (int k = 0; k < n; k++) for (int lhs = 0; lhs < 2; lhs++) { Part o, g; fill<n>(o, 0, "c"); for (int a = 0; a < n; a++) { o.r[a] = Sg("r", 0, a, -1, 1); o.v[a] = Sg("v", 0, a, -1, 1); o.a[a] = Sg("a", 0, a, -1, 1); } g = o; reflect(g, k, lhs ? box.min[k] : box.max[k]); image<n>(g, o, k, lhs, 1, box, true); reflect(g, k, lhs ? box.min[k] : box.max[k]); for (int a = 0; a < n; a++) gs_check_close("reflecting-twice-is-nothing", g.r[a], o.r[a], 1); } gs_cover("reflected"); }
extern "C" void gs_main() { char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[3] = {1, 2, 0}; for (int i = 0; i < 3; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } NP = v[1]; OPT = v[2];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, v[0]) }
  T(ghost) T(copy) }
