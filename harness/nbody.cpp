// N01 star gravity, N02 N-body integrators
#include "gsym.h"
#include "stubs.h"
#include "Nbody.h"
#include "Ewald.h"
#include "Hydrodynamics.h"
#include "Sph.h"
static double S(const char* f, int i, int k, double lo, double hi) { char b[16]; sprintf(b, "%s%d_%d", f, i, k); return gs_real(b, lo, hi); }
template <int n> struct Env { StarParticle<n> s[4]; NbodyParticle<n>* p[4]; DomainBox<n> box; CodeTiming tm;
  Env() { for (int i = 0; i < 4; i++) { p[i] = &s[i]; s[i].flags.set(active); } for (int k = 0; k < 3; k++) { box.boundary_lhs[k] = box.boundary_rhs[k] = openBoundary; box.min[k] = -100; box.max[k] = 100; box.size[k] = 200; box.half[k] = 100; } box.PeriodicGravity = false; } };
#define NDIMS(F, d) if (d == 1) F<1>(); if (d == 2) F<2>(); if (d == 3) F<3>();
template <int n> double dist2(const NbodyParticle<n>& a, const NbodyParticle<n>& b) { double s = 0; for (int k = 0; k < n; k++) s += (b.r[k] - a.r[k]) * (b.r[k] - a.r[k]); return s; }
template <int n> void pick(Env<n>& e, int N, bool sep, double span, bool rel = false) { for (int i = 0; i < N; i++) { for (int k = 0; k < n; k++) { e.s[i].r[k] = (i && rel ? e.s[0].r[k] : 0.0) + S("r", i, k, -span, span); e.s[i].v[k] = (i && rel ? e.s[0].v[k] : 0.0) + S("v", i, k, -3, 3); } e.s[i].m = S("m", i, 0, 0.1, 10); }
  if (sep) for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) gs_assume(dist2(e.s[i], e.s[j]) > 0.01); }
template <int n> void zero(NbodyParticle<n>& p) { for (int k = 0; k < n; k++) p.a[k] = p.adot[k] = p.a2dot[k] = p.a3dot[k] = 0; p.gpot = 0; }
template <int n> Nbody<n>* make(int w, double mu = 0.1) { switch (w) { case 0: return new NbodyLeapfrogKDK<n, M4Kernel>(0, 0, 0, mu, "m4"); case 1: return new NbodyLeapfrogDKD<n, M4Kernel>(0, 0, 0, mu, "m4"); case 2: return new NbodyHermite4<n, M4Kernel>(0, 0, 0, mu, "m4", 1); case 3: return new NbodyHermite4TS<n, M4Kernel>(0, 0, 0, mu, "m4", 2); default: return new NbodyHermite6TS<n, M4Kernel>(0, 0, 0, mu, "m4", 2); } }
static int W = 0;
static bool hermite() { return W >= 2; }
template <int n> void direct() { // three stars, softening off
  Env<n> e; Nbody<n>* nb = make<n>(W); nb->timing = &e.tm; int N = 3; pick(e, N, true, 3, true); int off = gs_choose("inactive", 2) ? 2 : -1; if (off >= 0) e.s[off].flags.unset(active);
  for (int i = 0; i < N; i++) zero(e.s[i]); Ewald<n>* ew = NULL; nb->CalculateDirectGravForces(N, e.p, e.box, ew);
  for (int i = 0; i < N; i++) { double a[n], jk[n], pot = 0; for (int k = 0; k < n; k++) a[k] = jk[k] = 0;
    for (int j = 0; j < N; j++) if (j != i) { double d2 = dist2(e.s[i], e.s[j]), q = 1 / sqrt(d2), vr = 0, m = e.s[j].m; for (int k = 0; k < n; k++) vr += (e.s[j].v[k] - e.s[i].v[k]) * (e.s[j].r[k] - e.s[i].r[k]); pot += m * q;
        for (int k = 0; k < n; k++) { double d = e.s[j].r[k] - e.s[i].r[k], v = e.s[j].v[k] - e.s[i].v[k]; a[k] += m * d * q * q * q; jk[k] += m * (v * q * q * q - 3 * vr * d * q * q * q * q * q); } }
    if (i == off) { for (int k = 0; k < n; k++) gs_check("inactive-star-untouched", e.s[i].a[k] == 0 && e.s[i].adot[k] == 0); continue; }
    gs_check_close("direct-potential", e.s[i].gpot, pot, 10); for (int k = 0; k < n; k++) { gs_check_close("direct-acceleration", e.s[i].a[k], a[k], 100); if (W != 0 || true) gs_check_close("direct-jerk", e.s[i].adot[k], jk[k], 1000); } }
  if (off < 0) for (int k = 0; k < n; k++) { double f = 0, fj = 0; for (int i = 0; i < N; i++) { f += e.s[i].m * e.s[i].a[k]; fj += e.s[i].m * e.s[i].adot[k]; } gs_check_close("momentum-conserved", f, 0, 1000); if (n < 3) gs_check_close("jerk-conserved", fj, 0, 10000); }
  gs_cover("direct"); }
// derivative of get(state) along r'=v, v'=a (and a'=j, j'=s when used)
template <int n, class F> double along(Env<n>& e, int N, F get, int order) { double s = 0;
  for (int i = 0; i < N; i++) for (int k = 0; k < n; k++) { double* x[3] = {&e.s[i].r[k], &e.s[i].v[k], &e.s[i].a[k]}; double y[3] = {e.s[i].v[k], e.s[i].a[k], e.s[i].adot[k]};
    for (int o = 0; o < order; o++) { double x0 = *x[o], d = gs_derivative([&](double z) { *x[o] = z; double g = get(); *x[o] = x0; return g; }, x0, 1e-4); s += d * y[o]; } } return s; }
template <int n> void startup() { // snap and crackle are the time derivatives of the jerk (two stars, Hermite schemes)
  Env<n> e; Nbody<n>* nb = make<n>(W); nb->timing = &e.tm; int N = 2; pick(e, N, true, 3); Ewald<n>* ew = NULL; double save[4][n];
  for (int i = 0; i < N; i++) for (int k = 0; k < n; k++) { e.s[i].a[k] = S("a", i, k, -3, 3); e.s[i].adot[k] = S("j", i, k, -3, 3); }
  auto jerk = [&](int i, int k) { double a[2][n], j[2][n], p[2]; for (int q = 0; q < N; q++) { p[q] = e.s[q].gpot; for (int c = 0; c < n; c++) { a[q][c] = e.s[q].a[c]; j[q][c] = e.s[q].adot[c]; } zero(e.s[q]); } nb->Nbody<n>::CalculateDirectGravForces(N, e.p, e.box, ew); double g = e.s[i].adot[k]; for (int q = 0; q < N; q++) for (int c = 0; c < n; c++) { e.s[q].a[c] = a[q][c]; e.s[q].adot[c] = j[q][c]; } return g; };
  auto snap = [&](int i, int k) { nb->CalculateAllStartupQuantities(N, e.p, e.box, ew); return e.s[i].a2dot[k]; };
  nb->CalculateAllStartupQuantities(N, e.p, e.box, ew);
  for (int i = 0; i < N; i++) for (int k = 0; k < n; k++) { nb->CalculateAllStartupQuantities(N, e.p, e.box, ew); double s2 = e.s[i].a2dot[k], s3 = e.s[i].a3dot[k];
    gs_check_close("snap-is-derivative-of-jerk", s2, along(e, N, [&]() { return jerk(i, k); }, 2), 1e5);
    gs_check_close("crackle-is-derivative-of-snap", s3, along(e, N, [&]() { return snap(i, k); }, 3), 1e6); e.s[i].a2dot[k] = s2; e.s[i].a3dot[k] = s3; }
  (void)save; gs_cover("startup"); }
template <int n> void snap6() { // 6th order scheme: snap computed with the forces, three stars
  Env<n> e; Nbody<n>* nb = make<n>(4); int N = 3; pick(e, N, true, 3); Ewald<n>* ew = NULL; for (int i = 0; i < N; i++) zero(e.s[i]); nb->CalculateDirectGravForces(N, e.p, e.box, ew);
  for (int i = 0; i < N; i++) for (int k = 0; k < n; k++) { double f = e.s[i].a2dot[k], g; double keep[3][n]; (void)keep; nb->CalculateAllStartupQuantities(N, e.p, e.box, ew); g = e.s[i].a2dot[k]; gs_check_close("snap-with-forces-equals-startup-snap", f, g, 1e5); zero(e.s[i]); for (int q = 0; q < N; q++) zero(e.s[q]); nb->CalculateDirectGravForces(N, e.p, e.box, ew); }
  gs_cover("snap6"); }
template <int n> void soft(int N) { // kernel-softened star-star forces
  Env<n> e; Nbody<n>* nb = make<n>(W); nb->timing = &e.tm; M4Kernel<n> K("m4"); pick(e, N, true, 3); Ewald<n>* ew = NULL; for (int i = 0; i < N; i++) { e.s[i].h = S("h", i, 0, 0.2, 2); zero(e.s[i]); }
  nb->CalculateDirectSmoothedGravForces(N, e.p, e.box, ew);
  for (int k = 0; k < n; k++) { double f = 0, fj = 0; for (int i = 0; i < N; i++) { f += e.s[i].m * e.s[i].a[k]; fj += e.s[i].m * e.s[i].adot[k]; } gs_check_close("softened-momentum-conserved", f, 0, 1000); gs_check_close("softened-jerk-conserved", fj, 0, 10000); }
  if (N == 2) { NbodyParticle<n>&p = e.s[0], &q = e.s[1]; double d2 = dist2(p, q), d = sqrt(d2), ih = 2 / (p.h + q.h), s = d * ih, F = ih * ih * K.wgrav(s); double P = p.gpot;
    gs_check_close("softened-potential", P, q.m * ih * K.wpot(s), 100); gs_check_close("potential-symmetric", P * p.m, q.gpot * q.m, 1000);
    for (int k = 0; k < n; k++) gs_check_close("softened-acceleration", p.a[k], q.m * F * (q.r[k] - p.r[k]) / d, 1000);
    if (s > 2) { for (int k = 0; k < n; k++) gs_check_close("newtonian-beyond-softening", p.a[k], q.m * (q.r[k] - p.r[k]) / (d2 * d), 1000); gs_check_close("newtonian-beyond-softening", P, q.m / d, 100); gs_cover("beyond"); } else gs_cover("softened");
    auto acc = [&](int k) { double a[n], j[n], g = p.gpot, r; for (int c = 0; c < n; c++) { a[c] = p.a[c]; j[c] = p.adot[c]; } double qa[n], qj[n], qg = q.gpot; for (int c = 0; c < n; c++) { qa[c] = q.a[c]; qj[c] = q.adot[c]; } zero(p); zero(q); nb->CalculateDirectSmoothedGravForces(2, e.p, e.box, ew); r = k < 0 ? p.gpot : p.a[k]; for (int c = 0; c < n; c++) { p.a[c] = a[c]; p.adot[c] = j[c]; q.a[c] = qa[c]; q.adot[c] = qj[c]; } p.gpot = g; q.gpot = qg; return r; };
    for (int k = 0; k < n; k++) { double x0 = p.r[k], g = gs_derivative([&](double z) { p.r[k] = z; double r = acc(-1); p.r[k] = x0; return r; }, x0, 1e-4); gs_check_close("softened-force-is-gradient-of-potential", p.a[k], g, 1000);
      if (hermite() && n == 3) { double aj = p.adot[k]; gs_check_close("softened-jerk-is-derivative-of-force", aj, along(e, 2, [&]() { return acc(k); }, 1), 1e4); gs_cover("softjerk"); } } } }
template <int n> void soft2() { soft<n>(2); }
template <int n> void soft3() { soft<n>(3); }
template <int n> void gas() { // forces of gas on a star: smoothed for hydro neighbours, point mass for the direct list
  Env<n> e; Nbody<n>* nb = make<n>(W); nb->timing = &e.tm; M4Kernel<n> K("m4"); GradhSphParticle<n> part[3]; Sph<n>& sph = *(Sph<n>*)calloc(1, sizeof(Sph<n>)); sph.hydrodata_unsafe = part; (int&)sph.size_hydro_part = sizeof(part[0]); Ewald<n>* ew = NULL;
  for (int k = 0; k < n; k++) { e.s[0].r[k] = S("r", 0, k, -3, 3); e.s[0].v[k] = S("v", 0, k, -3, 3); }
  for (int i = 0; i < 3; i++) { for (int k = 0; k < n; k++) { part[i].r[k] = e.s[0].r[k] + S("pr", i, k, -3, 3); part[i].v[k] = e.s[0].v[k] + S("pv", i, k, -3, 3); } part[i].m = S("pm", i, 0, 0.1, 10); part[i].h = S("ph", i, 0, 0.2, 2); }
  NbodyParticle<n>& s = e.s[0]; s.m = 1; s.h = gs_real("h", 0.2, 2); zero(s);
  int hl[2] = {2, 0}, dl[2] = {1, 0}, nh = gs_choose("Nhydro", 2), nd = gs_choose("Ndirect", 2); for (int i = 0; i < 3; i++) { double d2 = 0; for (int k = 0; k < n; k++) d2 += (part[i].r[k] - s.r[k]) * (part[i].r[k] - s.r[k]); gs_assume(d2 > 0.01); }
  nb->CalculateDirectHydroForces(&s, nh, nd, hl, dl, &sph, e.box, ew);
  double a[n], j[n], pot = 0; for (int k = 0; k < n; k++) a[k] = j[k] = 0;
  for (int w = 0; w < 2; w++) for (int q = 0; q < (w ? nd : nh); q++) { GradhSphParticle<n>& p = part[w ? dl[q] : hl[q]]; double d2 = 0, vr = 0; for (int k = 0; k < n; k++) { double d = p.r[k] - s.r[k]; d2 += d * d; vr += d * (p.v[k] - s.v[k]); } double d = sqrt(d2), ih = 2 / (p.h + s.h), x = d * ih, F = w ? p.m / d2 : p.m * ih * ih * K.wgrav(x), wm = w ? 0.0 : K.w0(x) * pow(ih, n); pot += w ? p.m / d : p.m * ih * K.wpot(x);
    for (int k = 0; k < n; k++) { double u = (p.r[k] - s.r[k]) / d; a[k] += F * u; j[k] += F / d * (p.v[k] - s.v[k]) - 3 * F / d * vr / d * u + 4 * pi * p.m * vr / d * wm * u; } }
  gs_check_close("gas-potential-on-star", s.gpot, pot, 100); for (int k = 0; k < n; k++) { gs_check_close("gas-force-on-star", s.a[k], a[k], 1000); if (hermite()) gs_check_close("gas-jerk-on-star", s.adot[k], j[k], 1e4); }
  gs_cover("gas"); }
// ---------------------------------------------------------------- N02
template <int n> void step() { // one step of a trajectory whose acceleration is a polynomial of the design degree
  Env<n> e; Nbody<n>* nb = make<n>(W); nb->timing = &e.tm; NbodyParticle<n>& s = e.s[0]; const int deg[5] = {0, 0, 3, 3, 5}, rdeg[5] = {0, 0, 3, 2, 4}; double c[n][8], t0 = gs_real("t0", 0, 5), dt = gs_real("dt", 0.01, 2);
  int ns = 2 + 2 * gs_choose("nstep", 2), nl = 8, dn = gs_choose("dn", 5); if (dn > ns) gs_end(); e.s[1].nstep = 100; e.s[1].nlast = nl; e.s[1].tlast = t0;
  bool rp = gs_choose("position", 2); int D = rp ? rdeg[W] : deg[W];
  for (int k = 0; k < n; k++) for (int q = 0; q < 8; q++) c[k][q] = q < D + 3 ? S("c", k, q, -3, 3) : 0.0; // r(t) = sum c_q t^q
  auto der = [&](int k, int o, double t) { double r = 0; for (int q = D + 2; q >= o; q--) { double f = 1; for (int z = 0; z < o; z++) f *= q - z; r = r * t + f * c[k][q]; } return r; };
  s.nstep = ns; s.nlast = nl; s.tlast = t0; double t = t0 + dt * dn / ns, T = t - t0;
  for (int k = 0; k < n; k++) { s.r[k] = s.r0[k] = der(k, 0, 0); s.v[k] = s.v0[k] = der(k, 1, 0); s.a[k] = s.a0[k] = der(k, 2, 0); s.adot[k] = s.adot0[k] = der(k, 3, 0); s.a2dot[k] = s.a2dot0[k] = der(k, 4, 0); s.a3dot[k] = der(k, 5, 0); e.s[1].r0[k] = e.s[1].r[k] = 1; }
  nb->AdvanceParticles(nl + dn, 2, t, dt / ns, e.p);
  int pd = W < 2 ? 2 : W == 4 ? 4 : 3; // degree to which the prediction is exact
  for (int k = 0; k < n; k++) { double r = 0, v = 0, f = 1; for (int q = 0; q <= pd; q++) { r += c[k][q] * pow(T, q); if (q) v += q * c[k][q] * pow(T, q - 1); } (void)f;
    if (W == 1 && dn < ns) r = c[k][0] + c[k][1] * T; gs_check_close("predicted-position", s.r[k], r, 1000); gs_check_close("predicted-velocity", s.v[k], v, 1000); }
  bool act = W == 1 ? dn == ns / 2 : dn == ns; gs_check("active-exactly-when-due", (bool)s.flags.check(active) == act); gs_check("other-star-not-due", !e.s[1].flags.check(active));
  if (dn == ns) { for (int k = 0; k < n; k++) { s.a[k] = der(k, 2, T); s.adot[k] = der(k, 3, T); s.a2dot[k] = der(k, 4, T); } double b1[n]; for (int k = 0; k < n; k++) b1[k] = e.s[1].v[k];
    nb->CorrectionTerms(nl + dn, 2, t, dt / ns, e.p);
    if (W == 3 || W == 4) { for (int k = 0; k < n; k++) { s.a[k] = der(k, 2, T); } nb->CorrectionTerms(nl + dn, 2, t, dt / ns, e.p); }
    for (int k = 0; k < n; k++) { if (rp) gs_check_close("corrected-position-exact", s.r[k], der(k, 0, T), 1e4); gs_check_close("corrected-velocity-exact", s.v[k], der(k, 1, T), 1e4); gs_check("star-inside-its-step-not-corrected", e.s[1].v[k] == b1[k]);
      if (W == 2 || W == 3) if (D <= 3) { gs_check_close("snap-recovered", s.a2dot[k], der(k, 4, 0), 1e5); gs_check_close("crackle-recovered", s.a3dot[k], der(k, 5, 0), 1e6); } if (W == 4 && D <= 3) gs_check_close("crackle-recovered", s.a3dot[k], der(k, 5, 0), 1e6); }
    gs_cover("corrected"); }
  // end of step
  bool fl = gs_choose("end", 2); if (fl) s.flags.set(end_timestep); else s.flags.unset(end_timestep); s.dt_next = gs_real("dt_next", 0.01, 2); s.dt = 0.5; double dn0 = s.dt_next, r1[n], v1[n], a1[n], j1[n]; for (int k = 0; k < n; k++) { r1[k] = s.r[k]; v1[k] = s.v[k]; a1[k] = s.a[k]; j1[k] = s.adot[k]; s.apert[k] = s.adotpert[k] = 3; }
  nb->EndTimestep(nl + dn, 2, t, dt / ns, e.p);
  if (fl) { gs_check("step-restarts-now", s.nlast == nl + dn); gs_check_close("step-restarts-now", s.tlast, t, 10); gs_check("next-step-size-taken", s.dt == dn0 && s.dt_next == 0); gs_check("flags-cleared", !s.flags.check(end_timestep) && !s.flags.check(active));
    for (int k = 0; k < n; k++) { gs_check("start-values-copied", s.r0[k] == r1[k] && s.v0[k] == v1[k] && s.a0[k] == a1[k]); if (W != 1) { gs_check("start-jerk-copied", s.adot0[k] == j1[k]); gs_check("perturbations-cleared", s.apert[k] == 0 && s.adotpert[k] == 0); } if (W == 4) gs_check("start-snap-copied", s.a2dot0[k] == s.a2dot[k]); } gs_cover("ended"); }
  else { gs_check("step-not-ended", s.nlast == nl && s.dt == 0.5 && s.dt_next == dn0); gs_check_close("step-not-ended", s.tlast, t0, 10); for (int k = 0; k < n; k++) gs_check_close("start-values-kept", s.r0[k], c[k][0], 10); gs_cover("continues"); }
  gs_check("other-star-not-ended", e.s[1].nlast == nl && e.s[1].r0[0] == 1); }
template <int n> void tstep() { // suggested timestep: positive, within the internal limit, scaling with the accuracy parameter
  Env<n> e; Nbody<n>* nb = make<n>(W, gs_real("mult", 0.01, 1)); NbodyParticle<n>& s = e.s[0]; s.h = gs_real("h", 0.1, 3); s.dt_internal = gs_real("dt_internal", 1e-3, 1e6); double q[4] = {0, 0, 0, 0};
  for (int k = 0; k < n; k++) { s.a[k] = S("a", 0, k, -3, 3); s.adot[k] = S("j", 0, k, -3, 3); s.a2dot[k] = S("s", 0, k, -3, 3); s.a3dot[k] = S("c", 0, k, -3, 3); q[0] += s.a[k] * s.a[k]; q[1] += s.adot[k] * s.adot[k]; q[2] += s.a2dot[k] * s.a2dot[k]; q[3] += s.a3dot[k] * s.a3dot[k]; } gs_assume(q[0] > 1e-4); if (hermite()) { gs_assume(q[1] > 1e-4); gs_assume(q[2] > 1e-4); }
  double t = nb->Timestep(&s); gs_check("timestep-positive", t > 0); gs_check_le("timestep-within-internal-limit", t, s.dt_internal, 1);
  s.dt_internal = 1e30; double u = nb->Timestep(&s); if (!hermite()) gs_check_close("timestep-formula", u * u * sqrt(q[0]), nb->nbody_mult * nb->nbody_mult * s.h, 10); else gs_check_close("aarseth-timestep", u * u * (sqrt(q[1] * q[3]) + q[2]), nb->nbody_mult * nb->nbody_mult * (sqrt(q[0] * q[2]) + q[1]), 100);
  gs_cover("timestep"); }
extern "C" void gs_main() { char nm[16]; int d; if (sscanf(gs_arg(), "%15[a-z0-9]-%d-%d", nm, &d, &W) < 2) return; string s = nm;
  if (s == "direct") { NDIMS(direct, d) } if (s == "startup") { NDIMS(startup, d) } if (s == "snap6") { NDIMS(snap6, d) } if (s == "soft2") { NDIMS(soft2, d) } if (s == "soft3") { NDIMS(soft3, d) } if (s == "gas") { NDIMS(gas, d) } if (s == "step") { NDIMS(step, d) } if (s == "tstep") { NDIMS(tstep, d) } }
