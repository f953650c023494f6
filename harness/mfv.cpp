// M01-M03, H03, H04: meshless finite-volume fluxes, gradients, smoothing lengths, gravity and conserved-variable updates
#include "gsym.h"
#include "hydrostub.h"
#include "MeshlessFV.h"
#include "Integration.h"
#include "Nbody.h"
#ifdef STUBFLUX
// Any kernel: the checks of this build hold for every weight, so the kernel is a plain rational stand-in.
static int anyW = 0, nW = 0;
template <int n> class AnyKernel : public SmoothingKernel<n> { public:
  AnyKernel(string) { this->kernrange = 2; this->invkernrange = 0.5; this->kernrangesqd = 4; this->kernnorm = 1; }
  FLOAT w0(const FLOAT s) { return w0_s2(s * s); } FLOAT w0_s2(const FLOAT s) { if (anyW) { char b[16]; sprintf(b, "w%d", nW++); return gs_real(b, 0.05, 1); } return 1 / (1 + s); }
  FLOAT w1(const FLOAT q) { return -q / (1 + q * q); } FLOAT womega(const FLOAT q) { return q; } FLOAT wzeta(const FLOAT q) { return q; } FLOAT wgrav(const FLOAT q) { return q; } FLOAT wpot(const FLOAT q) { return q; } };
#include "MeshlessFV/MfvCommon.cpp"
#include "MeshlessFV/MfvMuscl.cpp"
#include "MeshlessFV/MfvRungeKutta.cpp"
// Stand-in for the exact Riemann solver with the properties R01 and R02 establish for the real ones: consistent with the flux of
// identical states, symmetric under exchange of the sides, covariant under rotations, and boosted by the face velocity.
template <int n> RiemannSolver<n>::RiemannSolver(FLOAT g, bool z) : gamma(g), invgamma(1 / g), g1(0), g2(0), g3(0), g4(0), g5(0), g6(0), g7(0), g8(0), g9(0), zeroMassFlux(z) {}
template <int n> void ExactRiemannSolver<n>::ComputeStarRegion(const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, const FLOAT, FLOAT&, FLOAT&) {}
template <int n> void ExactRiemannSolver<n>::ComputeFluxes(const FLOAT L[nvar], const FLOAT R[nvar], const FLOAT nn[n], FLOAT vf[n], FLOAT flux[nvar][n]) {
  double g[n + 2], vl = 0, vr = 0, el = 2.5 * L[ipress], er = 2.5 * R[ipress]; for (int k = 0; k < n; k++) { vl += L[k] * nn[k]; vr += R[k] * nn[k]; el += 0.5 * L[irho] * L[k] * L[k]; er += 0.5 * R[irho] * R[k] * R[k]; }
  g[irho] = 0.5 * (L[irho] * vl + R[irho] * vr + L[irho] - R[irho]); g[ietot] = 0.5 * ((el + L[ipress]) * vl + (er + R[ipress]) * vr + el - er);
  for (int k = 0; k < n; k++) g[k] = 0.5 * (L[irho] * vl * L[k] + R[irho] * vr * R[k] + (L[ipress] + R[ipress]) * nn[k] + L[irho] * L[k] - R[irho] * R[k]);
  for (int k = 0; k < n; k++) { g[ietot] += g[k] * vf[k] + 0.5 * g[irho] * vf[k] * vf[k]; } for (int k = 0; k < n; k++) g[k] += g[irho] * vf[k];
  for (int i = 0; i < nvar; i++) for (int k = 0; k < n; k++) flux[i][k] = g[i] * nn[k]; }
template class ExactRiemannSolver<1>; template class ExactRiemannSolver<2>; template class ExactRiemannSolver<3>; template class RiemannSolver<1>; template class RiemannSolver<2>; template class RiemannSolver<3>;
template class MfvCommon<1, AnyKernel, NullLimiter<1> >; template class MfvCommon<2, AnyKernel, NullLimiter<2> >; template class MfvCommon<3, AnyKernel, NullLimiter<3> >;
#define KER AnyKernel
#else
#define KER M4Kernel
#endif
static int F_ = 0, NN = 1, W_ = 0;
template <int n> struct World { Parameters P; SimUnits U; EOS<n>* eos;
  World(const char* solver) { P.intparams["hydro_forces"] = 1; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; P.stringparams["riemann_solver"] = solver; P.stringparams["time_step_limiter"] = "simple"; P.stringparams["gas_eos"] = "energy_eqn"; P.intparams["zero_mass_flux"] = (F_ & 4) != 0; P.intparams["static_particles"] = (F_ & 1) != 0; P.floatparams["shear_visc"] = P.floatparams["bulk_visc"] = (F_ & 8) ? 0.5 : 0.0; P.intparams["create_sinks"] = (F_ & 2) != 0; P.floatparams["accel_mult"] = 0.3; P.floatparams["courant_mult"] = 0.2; P.floatparams["visc_mult"] = 0.1; eos = new Adiabatic<n>(&P, &U); }
  template <class S> S* make(double conv = 0.01) { S* s = new S(1, 1, 0.3, 0.2, 1.2, conv, 1.4, "energy_eqn", "m4", sizeof(MeshlessFVParticle<n>), U, &P); s->eos = eos; return s; } };
template <int n> void particle(MeshlessFVParticle<n>& p, MeshlessFVParticle<n>* rel, int i) {
  for (int k = 0; k < n; k++) { p.r[k] = (rel ? rel->r[k] : 0.0) + Sg("r", i, k, -3, 3); p.v[k] = (rel ? rel->v[k] : 0.0) + Sg("v", i, k, -3, 3); p.a[k] = Sg("a", i, k, -1, 1); p.a0[k] = p.atree[k] = 0; }
  p.h = Sg("h", i, 0, 0.3, 2); p.ndens = Sg("nd", i, 0, 0.1, 10); p.rho = Sg("rho", i, 0, 0.5, 5); p.m = p.rho / p.ndens; p.pressure = Sg("p", i, 0, 0.5, 5); p.u = p.pressure / (0.4 * p.rho); p.sound = Sg("c", i, 0, 0.5, 3); double ih = 1 / p.h; p.hfactor = 1; for (int k = 0; k <= n; k++) p.hfactor *= ih; p.hrangesqd = 4 * p.h * p.h; p.nstep = 2; p.iorig = i; p.ptype = gas_type; p.gpot = 0; p.vsig_max = 0;
  for (int k = 0; k < n; k++) p.Wprim[k] = p.v[k]; p.Wprim[n] = p.rho; p.Wprim[n + 1] = p.pressure; }
template <int n> double sep(Particle<n>& a, Particle<n>& b, double* d) { double s = 0; for (int k = 0; k < n; k++) { d[k] = b.r[k] - a.r[k]; s += d[k] * d[k]; } return s; }
typedef vector<int> VI;
#ifdef STUBFLUX
// ---- M01
template <int n> void geometry(MeshlessFVParticle<n>& p, int i) { for (int k = 0; k < n; k++) for (int c = 0; c <= k; c++) { char b[16]; sprintf(b, "B%d_%d", i, c); p.B[k][c] = p.B[c][k] = Sg(b, k, 0, k == c ? 0.3 : -0.2, k == c ? 3 : 0.2); } if (i < 2 && (W_ >> i & 1)) p.flags.set(bad_gradients);
  for (int v = 0; v < n + 2; v++) { char b[16]; sprintf(b, "al%d_%d", i, v); p.alpha_slope[v] = Sg(b, 0, 0, 0, 1); for (int k = 0; k < n; k++) { sprintf(b, "g%d_%d", i, v); p.grad[v][k] = Sg(b, k, 0, -0.2, 0.2); } } }
template <int n, template <int, template <int> class, class> class Scheme, class Lim> void fluxK(bool muscl) {
  World<n> w("exact"); auto* s = w.template make<Scheme<n, AnyKernel, Lim> >(); MeshlessFVParticle<n> p, q; particle<n>(p, NULL, 0); particle(q, &p, 1); geometry(p, 0); geometry(q, 1); double d[n]; gs_assume(sep(p, q, d) > 0.04); gs_assume(p.rho > 1.5); gs_assume(q.rho > 1.5); gs_assume(p.pressure > 1.5); gs_assume(q.pressure > 1.5); double dt = gs_real("dt", 0.001, 0.005); 
  if (W_ & 4) { double R[3] = {0.3, -0.4, 0.2}, Q[3] = {-0.5, 0.25, 0.75}; int c = gs_choose("geo", 2); for (int k = 0; k < n; k++) { p.r[k] = c ? 1.5 : -2.0; q.r[k] = p.r[k] + (c ? R[k] : Q[k]); for (int j = 0; j < n; j++) { p.B[k][j] = k == j ? 1.25 : -0.125; q.B[k][j] = k == j ? 0.75 : 0.0625; } } p.h = 0.8; q.h = 1.25; p.hfactor = q.hfactor = 1; for (int k = 0; k <= n; k++) { p.hfactor /= 0.8; q.hfactor /= 1.25; } p.ndens = 2; q.ndens = 2.5; }
  if (W_ & 8) { for (int i = 0; i < n + 2; i++) { p.Wprim[i] = 1.5 + 0.25 * i; q.Wprim[i] = 2.5 - 0.125 * i; for (int k = 0; k < n; k++) p.grad[i][k] = q.grad[i][k] = 0; } for (int k = 0; k < n; k++) { p.v[k] = p.Wprim[k]; q.v[k] = q.Wprim[k]; p.a[k] = q.a[k] = 0; } dt = 0.01; }
  sep(p, q, d); typedef typename MeshlessFV<n>::FluxNeib H;
  vector<H> v; VI ix(1, 0); v.push_back(H(q)); NeighbourList<H> l(ix, v); MeshlessFVParticle<n> a = p; s->ComputeGodunovFlux(a, l, dt);
  vector<H> v2; v2.push_back(H(p)); NeighbourList<H> l2(ix, v2); MeshlessFVParticle<n> b = q; s->ComputeGodunovFlux(b, l2, dt);
  for (int i = 0; i < n + 2; i++) { gs_check_close("gain-equals-loss", a.dQ[i], -v[0].dQ[i], 1e3); gs_check_close("same-transfer-from-either-side", b.dQ[i], v[0].dQ[i], 1e3); if (muscl) { gs_check_close("rate-gain-equals-loss", a.dQdt[i], -v[0].dQdt[i], 1e3); gs_check_close("step-is-rate-times-timestep", a.dQ[i], a.dQdt[i] * dt * 2, 1e3); gs_check_close("same-transfer-from-either-side", b.dQdt[i], v[0].dQdt[i], 1e3); } }
  if (muscl) for (int k = 0; k < n; k++) { gs_check_close("same-mass-moment-from-either-side", b.rdmdt[k], v[0].rdmdt[k], 1e3); gs_check_close("mass-moment", a.rdmdt[k], -d[k] * a.dQ[n], 1e3); }
  gs_cover("flux"); }
template <int n> void muscl() { fluxK<n, MfvMuscl, NullLimiter<n> >(true); }
template <int n> void musclz() { fluxK<n, MfvMuscl, ZeroSlopeLimiter<n> >(true); }
template <int n> void rk() { fluxK<n, MfvRungeKutta, NullLimiter<n> >(false); }
template <int n> void rkz() { fluxK<n, MfvRungeKutta, ZeroSlopeLimiter<n> >(false); }
// identical states at rest: only momentum is exchanged, and it pushes the particles apart
template <int n, template <int, template <int> class, class> class Scheme> void restK(bool two) {
  World<n> w("exact"); auto* s = w.template make<Scheme<n, AnyKernel, NullLimiter<n> > >(); MeshlessFVParticle<n> p, q; particle<n>(p, NULL, 0); particle(q, &p, 1); geometry(p, 0); geometry(q, 1); double d[n]; gs_assume(sep(p, q, d) > 0.04); double dt = gs_real("dt", 0.001, 0.02), e = 0, f = 0; typedef typename MeshlessFV<n>::FluxNeib H;
  for (int k = 0; k < n; k++) { q.v[k] = p.v[k] = p.Wprim[k] = q.Wprim[k] = 0; p.a[k] = q.a[k] = 0; } for (int v = 0; v < n + 2; v++) { q.Wprim[v] = p.Wprim[v]; for (int k = 0; k < n; k++) p.grad[v][k] = q.grad[v][k] = 0; } for (int k = 0; k < n; k++) for (int c = 0; c < n; c++) { e += d[k] * p.B[k][c] * d[c]; f += d[k] * q.B[k][c] * d[c]; } gs_assume(e > 0.001); gs_assume(f > 0.001);
  vector<H> v; VI ix(1, 0); v.push_back(H(q)); NeighbourList<H> l(ix, v); MeshlessFVParticle<n> a = p; s->ComputeGodunovFlux(a, l, dt); double push = 0; for (int k = 0; k < n; k++) push += a.dQ[k] * d[k]; gs_check_close("no-mass-exchange-at-rest", a.dQ[n], 0, 100); gs_check_close("no-energy-exchange-at-rest", a.dQ[n + 1], 0, 100); { double wi = p.hfactor / (p.ndens * p.ndens * (1 + sep(p, q, d) / (p.h * p.h))), wj = q.hfactor / (q.ndens * q.ndens * (1 + sep(p, q, d) / (q.h * q.h))); gs_check_close("pressure-force-on-face", push, -2 * dt * p.Wprim[n + 1] * (wi * e + wj * f), 100); } if (n == 1 || !two) gs_check_le("pressure-pushes-apart", push, 0, 1); gs_cover("rest"); }
template <int n> void rest() { restK<n, MfvMuscl>(true); }
template <int n> void rkrest() { restK<n, MfvRungeKutta>(false); }
// the time extrapolation of each side uses that side's own gradient
template <int n> void rkside() {
  World<n> w("exact"); auto* s = w.template make<MfvRungeKutta<n, AnyKernel, NullLimiter<n> > >(); auto* z = w.template make<MfvMuscl<n, AnyKernel, NullLimiter<n> > >(); MeshlessFVParticle<n> p, q; particle<n>(p, NULL, 0); particle(q, &p, 1); geometry(p, 0); geometry(q, 1); double d[n]; gs_assume(sep(p, q, d) > 0.04); double dt = gs_real("dt", 0.001, 0.02); typedef typename MeshlessFV<n>::FluxNeib H;
  vector<H> v; VI ix(1, 0); v.push_back(H(q)); NeighbourList<H> l(ix, v); MeshlessFVParticle<n> a = p, b = p; s->ComputeGodunovFlux(a, l, dt); z->ComputeGodunovFlux(b, l, 0.0); // rate at the start of the step
  double e = 0; for (int k = 0; k < n; k++) e += (a.dQ[k] / (2 * dt) - b.dQdt[k]) * d[k]; gs_check_close("second-order-step-starts-from-the-same-flux", e, 0, 1e6); gs_cover("rkside"); }
// ---- M03
template <int n> void linear() {
  World<n> w("exact"); auto* s = w.template make<MfvMuscl<n, AnyKernel, NullLimiter<n> > >(); MeshlessFVParticle<n> p; particle<n>(p, NULL, 0); typedef typename MeshlessFV<n>::GradNeib H; vector<H> v; VI ix; double G[n + 2][n], vs = 0; for (int i = 0; i < n + 2; i++) for (int k = 0; k < n; k++) { char b[16]; sprintf(b, "G%d", i); G[i][k] = Sg(b, k, 0, -1, 1); }
  p.level = 3; p.levelneib = 0; bool mn = true; double X2 = 4 * p.h * p.h; p.gpot = gs_real("gpot", 0.1, 10);
  for (int j = 0; j < NN; j++) { MeshlessFVParticle<n> q = p; double d[n], d2 = 0, dv = 0; for (int k = 0; k < n; k++) { d[k] = Sg("d", j, k, -2, 2); d2 += d[k] * d[k]; q.r[k] = p.r[k] + d[k]; } gs_assume(d2 > 0.01); for (int i = 0; i < n + 2; i++) { q.Wprim[i] = p.Wprim[i]; for (int k = 0; k < n; k++) q.Wprim[i] += G[i][k] * d[k]; } for (int k = 0; k < n; k++) { double t = Sg("dv", j, k, -3, 3); q.v[k] = p.v[k] + t; dv += t * d[k]; } q.sound = Sg("cn", j, 0, 0.5, 3); q.level = 2 + 3 * (j & 1); if (F_ & 2) { q.gpot = Sg("gp", j, 0, 0.1, 10); if (q.gpot > 1.000000001 * p.gpot && d2 < X2) mn = false; } double t = p.sound + q.sound - (dv < 0 ? dv / sqrt(d2) : 0.0); if (t > vs) vs = t; v.push_back(H(q)); ix.push_back(j); }
  NeighbourList<H> l(ix, v); anyW = 1; s->ComputeGradients(p, l); anyW = 0; if (!p.flags.check(bad_gradients)) { for (int i = 0; i < n + 2; i++) for (int k = 0; k < n; k++) gs_check_close("linear-field-gradient-exact", p.grad[i][k], G[i][k], 10); gs_cover("matrix-gradient"); } else gs_cover("sph-gradient");
  if (NN <= 2) { gs_check_close("signal-speed", p.vsig_max, vs, 10); gs_check("neighbour-levels", p.levelneib == (NN > 1 ? 5 : 2)); for (int j = 0; j < NN; j++) gs_check("neighbour-levels", v[j].levelneib == 3); if (F_ & 2) { gs_check("potential-minimum-flag", (bool)p.flags.check(potmin) == mn); gs_cover(mn ? "minimum" : "not-minimum"); } } }
#else
template <int n> using MF = MfvMuscl<n, M4Kernel, NullLimiter<n> >;
// real HLLC solver, real kernel
template <int n> void hllcf() {
  World<n> w("hllc"); auto* s = w.template make<MF<n> >(); MeshlessFVParticle<n> p, q; particle<n>(p, NULL, 0); particle(q, &p, 1); for (int i = 0; i < 2; i++) { MeshlessFVParticle<n>& x = i ? q : p; for (int k = 0; k < n; k++) for (int c = 0; c < n; c++) x.B[k][c] = k == c ? (i ? 0.7 : 1.3) : 0.0; for (int v = 0; v < n + 2; v++) { x.alpha_slope[v] = 1; for (int k = 0; k < n; k++) x.grad[v][k] = 0; } for (int k = 0; k < n; k++) x.a[k] = 0; } double d[n], d2 = sep(p, q, d); gs_assume(d2 > 0.04);
  typedef typename MeshlessFV<n>::FluxNeib H; vector<H> v; VI ix(1, 0); v.push_back(H(q)); NeighbourList<H> l(ix, v); MeshlessFVParticle<n> a = p; double dt = 0.001; s->ComputeGodunovFlux(a, l, dt); for (int i = 0; i < n + 2; i++) { gs_check_close("gain-equals-loss", a.dQ[i], -v[0].dQ[i], 1e3); gs_check_close("rate-gain-equals-loss", a.dQdt[i], -v[0].dQdt[i], 1e3); } if (F_ & 4) gs_check_close("zero-mass-flux-keeps-mass", a.dQ[n], 0, 1); gs_cover("hllc-flux"); if (a.dQ[n] < 0) gs_cover("outflow"); }
// ---- H03.  F_ bits: 2 sinks, 4 particle in a sink, 16 start from the exact solution
template <int n> void mfh() {
  int e = F_ & 16, snk = F_ & 4; F_ &= 2; World<n> w("hllc"); auto* s = w.template make<MF<n> >(); MeshlessFV<n>* mfv = s; MeshlessFVParticle<n> p; M4Kernel<n> K("m4"); p.m = gs_real("m", 0.5, 2); p.u = 1; p.h = gs_real("h", 0.3, 3); p.rho = 1; p.invomega = Sg("iom", 0, 0, 0.5, 2); p.zeta = Sg("z", 0, 0, -2, 2); p.ndens = 5; p.gpot = 1; double h0 = p.h, hmax = gs_real("hmax", 0.3, 3), d2[4], mm[4], mu[4], gp[4]; d2[0] = 0; mm[0] = p.m; for (int j = 1; j <= NN; j++) { double q = Sg("d", j, 0, 0.01, 2); d2[j] = q * q; mm[j] = Sg("mj", j, 0, 0.5, 2); mu[j] = gp[j] = 1; } mu[0] = gp[0] = 1; double floor = snk ? gs_real("hsink", 0.3, 2) : 0.0; if (snk) { p.sinkid = 0; mfv->hmin_sink = floor; }
  // exact start: neighbour 1 lies where the relation sum of w0(d/h) = hfac^n holds, i.e. h_fac is chosen to fit
  double S = 0, O = 0, Z = 0; for (int j = 0; j <= NN; j++) { double q = d2[j] / (h0 * h0); S += K.w0_s2(q); O += K.womega_s2(q); Z += mm[j] * K.wzeta_s2(q); }
  if (e) { double hf = n == 1 ? S : n == 2 ? sqrt(S) : pow(S, 1.0 / 3.0); *(FLOAT*)&s->h_fac = hf; gs_assume(h0 < 0.999 * hmax); gs_assume(floor < 0.999 * h0); }
  int rc = s->ComputeH(0, NN + 1, hmax, mm, mu, d2, gp, p, NULL); gs_check("return-code", rc == 1 || rc == 0 || rc == -1); if (snk && hmax < floor) { gs_check("reports-too-small-list", rc == -1); gs_cover("sink-list-too-small"); return; }
  double hn = 1; for (int k = 0; k < n; k++) hn *= h0;
  if (e) { gs_check("converged-state-accepted", rc == 1); gs_check_close("converged-h-unchanged", p.h, h0, 1); gs_check_close("number-density-is-kernel-sum", p.ndens * hn, S, 10); gs_check_close("density-is-kernel-sum", p.rho, p.m * p.ndens, 100); double om = 1 + p.h / (n * p.ndens) * O / (hn * h0); gs_assume(om > 0.01); gs_check_close("grad-h-correction", 1 / p.invomega, om, 10); gs_check_close("gravity-correction", p.zeta, -p.m * p.h / (n * p.ndens) * Z / (h0 * h0) * p.invomega, 100); gs_cover("exact"); }
  if (rc == 0) { gs_check("failure-only-when-h-exceeds-list", true); gs_cover("enlarge"); return; }
  if (rc == 1) gs_check_le("h-within-list", p.h, hmax, 1); else gs_check_le("failure-only-when-h-exceeds-list", hmax, p.h, 1);
  gs_check_le("h-not-below-sink-floor", floor, p.h, 1); double hr = s->h_fac * pow(1 / p.ndens, 1.0 / n); gs_check_close("h-rho-relation", p.h, hr > floor ? hr : floor, 1); gs_check_close("h-factor", p.hfactor * pow(p.h, n + 1), 1, 10); gs_check_close("kernel-extent", p.hrangesqd, 4 * p.h * p.h, 10); gs_check_close("pressure-updated", p.pressure, 0.4 * p.rho * p.u, 100);
  if (!e && n == 1 && p.h > 1.000001 * floor) { double R = 0; for (int j = 0; j <= NN; j++) R += K.w0_s2(d2[j] / (p.h * p.h)); gs_check_le("density-consistent-within-tolerance", R / p.h, 1.1 * p.ndens, 1); gs_check_le("density-consistent-within-tolerance", 0.9 * p.ndens, R / p.h, 1); }
  gs_cover("converged"); }
// ---- H04
template <int n> void mgrav() {
  World<n> w("hllc"); auto* s = w.template make<MF<n> >(); MeshlessFVParticle<n> p, q; particle<n>(p, NULL, 0); particle(q, &p, 1); p.m = gs_real("m0", 0.1, 10); q.m = gs_real("m1", 0.1, 10); p.zeta = gs_real("zi", -2, 2); q.zeta = gs_real("zj", -2, 2); for (int k = 0; k < n; k++) p.a[k] = q.a[k] = 0; double d[n], d2 = sep(p, q, d); gs_assume(d2 > 0.01); double r = sqrt(d2); M4Kernel<n> K("m4"); typedef typename MeshlessFV<n>::GravNeib H; typedef typename MeshlessFV<n>::DirectNeib D; VI ix(1, 0);
  vector<H> vq, vp; vq.push_back(H(q)); vp.push_back(H(p)); NeighbourList<H> lq(ix, vq), lp(ix, vp); MeshlessFVParticle<n> a = p, b = q; s->ComputeSmoothedGravForces(a, lq); s->ComputeSmoothedGravForces(b, lp);
  for (int k = 0; k < n; k++) { gs_check_close("gravity-antisymmetric", p.m * a.atree[k], -q.m * b.atree[k], 1e4); for (int c = 0; c < k; c++) gs_check_close("gravity-along-separation", a.atree[k] * d[c], a.atree[c] * d[k], 1e4); double F = 0.5 * (q.m * (K.wgrav(r / p.h) / (p.h * p.h) + K.wgrav(r / q.h) / (q.h * q.h)) + (p.zeta * p.hfactor * K.w1(r / p.h) + q.zeta * q.hfactor * K.w1(r / q.h)) / p.m); gs_check_close("gradient-of-smoothed-potential", a.atree[k] * r, F * d[k], 1e4); }
  gs_check_close("potential-symmetric", a.gpot * p.m, b.gpot * q.m, 1e3); gs_check_close("mean-potential", a.gpot, 0.5 * q.m * (K.wpot(r / p.h) / p.h + K.wpot(r / q.h) / q.h), 1e3);
  if (r > 2.000001 * p.h && r > 2.000001 * q.h) { vector<D> v; v.push_back(D(q)); NeighbourList<D> l(ix, v); MeshlessFVParticle<n> c = p; s->ComputeDirectGravForces(c, l); for (int k = 0; k < n; k++) { gs_check_close("newtonian-beyond-kernels", a.atree[k] * d2 * r, q.m * d[k], 1e3); gs_check_close("direct-equals-smoothed", c.atree[k], a.atree[k], 1e4); } gs_check_close("direct-equals-smoothed", c.gpot, a.gpot, 1e3); gs_cover("beyond"); } else gs_cover("within");
  StarParticle<n> st; NbodyParticle<n>* ps[1] = {&st}; st.m = q.m; st.h = q.h; for (int k = 0; k < n; k++) st.r[k] = q.r[k]; MeshlessFVParticle<n> c = p; s->ComputeStarGravForces(1, ps, c); double ih = 2 / (p.h + q.h), F = q.m * ih * ih * K.wgrav(r * ih); for (int k = 0; k < n; k++) gs_check_close("star-gas-force", c.atree[k] * r, F * d[k], 1e4); gs_check_close("star-gas-potential", c.gpot, q.m * ih * K.wpot(r * ih), 1e3); gs_cover("star"); }
// ---- M02
template <int n> void conv() {
  World<n> w("hllc"); auto* s = w.template make<MF<n> >(); MeshlessFVParticle<n> p; particle<n>(p, NULL, 0); double Q[n + 2], ek = 0; for (int k = 0; k < n; k++) { Q[k] = p.m * p.v[k]; ek += p.v[k] * p.v[k]; } Q[n] = p.m; Q[n + 1] = p.m * (p.u + 0.5 * ek); MeshlessFVParticle<n> q = p; q.m = q.rho = q.u = 0; for (int k = 0; k < n; k++) q.v[k] = 0; s->UpdateArrayVariables(q, Q); s->ComputeThermalProperties(q); s->UpdatePrimitiveVector(q);
  gs_check_close("round-trip-mass", q.m, p.m, 10); gs_check_close("round-trip-density", q.rho, p.rho, 10); gs_check_close("round-trip-energy", q.u, p.u, 100); gs_check_close("round-trip-pressure", q.pressure, p.pressure, 10); gs_check_close("sound-speed", q.sound * q.sound, 1.4 * 0.4 * q.u, 100); for (int k = 0; k < n; k++) { gs_check_close("round-trip-velocity", q.v[k], p.v[k], 10); gs_check_close("primitive-vector", q.Wprim[k], p.v[k], 10); } gs_check_close("primitive-vector", q.Wprim[n], p.rho, 10); gs_check_close("primitive-vector", q.Wprim[n + 1], p.pressure, 10);
  double f = gs_real("f", 0, 0.9), dm = f * p.m; q = p; for (int i = 0; i < n + 2; i++) q.dQ[i] = 0; s->AccreteMassFromParticle(dm, q); gs_check_close("accreted-mass", q.m, p.m - dm, 10); for (int i = 0; i < n + 2; i++) gs_check_close("accretion-removes-proportional-share", q.dQ[i], -f * Q[i], 100); gs_cover("convert"); }
template <int n> void setup(MeshlessFVParticle<n>& p, double dt) { double ek = 0; for (int k = 0; k < n; k++) { ek += p.v[k] * p.v[k]; p.Qcons0[k] = p.m * p.v[k]; p.v0[k] = p.v[k]; p.r0[k] = p.r[k]; p.rdmdt[k] = 0; } p.Qcons0[n] = p.m; p.Qcons0[n + 1] = p.m * (p.u + 0.5 * ek); p.cooling = 0; p.nlast = 0; p.nstep = 4; p.level = 1; p.dt = 4 * dt; p.dt_next = 7; for (int i = 0; i < n + 2; i++) p.dQ[i] = p.dQdt[i] = 0; }
template <int n> void step() { // AdvanceParticles and EndTimestep under constant acceleration and constant flux
  World<n> w("hllc"); auto* s = w.template make<MF<n> >(); MfvIntegration<n, MeshlessFVParticle> I(&w.P); CodeTiming ct; I.timing = &ct; MeshlessFVParticle<n> p; particle<n>(p, NULL, 0); double dt = gs_real("dt", 0.001, 0.01); setup(p, dt); for (int k = 0; k < n; k++) p.a0[k] = p.a[k]; double dq[n + 2]; for (int i = 0; i < n + 2; i++) { dq[i] = 0; if (F_ & 2) { dq[i] = Sg("dq", i, 0, -0.1, 0.1); p.dQdt[i] = dq[i]; p.dQ[i] = dq[i] * 4 * dt; } } double cool = (F_ & 8) ? gs_real("cool", -0.1, 0.1) : 0.0; p.cooling = cool; p.flags.unset(active);
  gs_assume(p.rho / p.ndens > 0.05); s->hydrodata = new MeshlessFVParticle<n>[2]; s->hydrodata[0] = p; s->hydrodata[1] = p; s->hydrodata[1].flags.set(dead); s->Nhydro = 2; int m = 1 + gs_choose("substep", 4); double T = m * dt; I.AdvanceParticles(m, 0.0, dt, s); MeshlessFVParticle<n> q = s->hydrodata[0], z = s->hydrodata[1]; gs_check_close("dead-untouched", z.r[0] - p.r[0], 0, 1); gs_check("active-exactly-at-step-end", q.flags.check(active) == (m == 4));
  double M = p.m + dq[n] * T, e = p.Qcons0[n + 1] + dq[n + 1] * T - cool * T, ek = 0; gs_check_close("mass-follows-flux", q.m, M, 10); for (int k = 0; k < n; k++) { double P = p.Qcons0[k] + dq[k] * T + 0.5 * (p.m + M) * p.a0[k] * T; gs_check_close("momentum-follows-flux-and-field", q.m * q.v[k], P, 100); if (!(F_ & 1)) gs_check_close("drift", q.r[k], p.r[k] + 0.5 * (p.v[k] + q.v[k]) * T, 10); else gs_check_close("static-particles-stay", q.r[k], p.r[k], 1); }
  if (!(F_ & 2)) gs_check_close("thermal-energy-unchanged-by-uniform-field", q.m * q.u, p.m * p.u - cool * T, 10);
  for (int k = 0; k < n; k++) s->hydrodata[0].a[k] = p.a0[k]; double rm[n]; for (int k = 0; k < n; k++) s->hydrodata[0].rdmdt[k] = rm[k] = (F_ & 2) ? Sg("rm", 0, k, -0.05, 0.05) : 0.0; I.EndTimestep(m, m * dt, dt, s); MeshlessFVParticle<n>& f = s->hydrodata[0];
  if (m < 4) { gs_check("only-ends-at-step-end", f.nlast == 0 && !f.flags.check(active)); gs_check_close("only-ends-at-step-end", f.u, q.u, 10); gs_cover("mid-step"); }
  else { gs_check("step-ended", f.nlast == 4 && f.flags.check(active) && f.dt == 7 && f.dt_next == 0); gs_check_close("mass-follows-flux", f.m, M, 10); e = p.Qcons0[n + 1] + dq[n + 1] * T - cool * T; for (int k = 0; k < n; k++) { double P1 = p.Qcons0[k] + dq[k] * T; e += 0.5 * T * p.a0[k] * (p.Qcons0[k] + 0.5 * p.m * p.a0[k] * T + P1 + 0.5 * M * p.a0[k] * T); gs_check_close("momentum-follows-flux-and-field", f.m * f.v[k], P1 + 0.5 * (p.m + M) * p.a0[k] * T, 100); gs_check_close("new-step-starts-here", f.r0[k], f.r[k], 1); gs_check_close("new-step-starts-here", f.v0[k], f.v[k], 1); gs_check_close("new-step-starts-here", f.a0[k], f.a[k], 1); gs_check_close("fluxes-reset", f.rdmdt[k], 0, 1); e += 0.5 * p.a0[k] * rm[k]; }
    for (int i = 0; i < n + 2; i++) { gs_check_close("fluxes-reset", f.dQ[i], 0, 1); gs_check_close("fluxes-reset", f.dQdt[i], 0, 1); } for (int k = 0; k < n; k++) { ek += f.v[k] * f.v[k]; gs_check_close("conserved-state", f.Qcons0[k], f.m * f.v[k], 100); } gs_check_close("conserved-state", f.Qcons0[n], f.m, 10); gs_check_close("energy-follows-flux-field-and-cooling", f.m * (f.u + 0.5 * ek), e, 100); gs_check_close("conserved-state", f.Qcons0[n + 1], e, 100); gs_cover("ended"); } }
// ---- B01: a particle reflected (or wrapped) in the middle of a step goes on as its mirror image would
template <int n> void mirror() {
  World<n> w("hllc"); auto* s = w.template make<MF<n> >(); MfvIntegration<n, MeshlessFVParticle> I(&w.P); CodeTiming ct; I.timing = &ct; MeshlessFVParticle<n> p; particle<n>(p, NULL, 0); p.rho = p.Wprim[n] = 1.25 * p.ndens; p.m = 1.25; p.u = gs_real("u0", 50, 60); p.pressure = p.Wprim[n + 1] = 0.4 * p.rho * p.u; double ts = gs_real("ts", 0.001, 0.01); setup(p, ts); for (int k = 0; k < n; k++) { p.a0[k] = Sg("a0", 0, k, -1, 1); p.r0[k] = p.r[k] - Sg("dr", 0, k, -0.1, 0.1); p.rdmdt[k] = Sg("rm", 0, k, -0.05, 0.05); } for (int i = 0; i < n + 2; i++) { p.dQdt[i] = Sg("dq", i, 0, -0.1, 0.1); p.dQ[i] = p.dQdt[i] * p.dt; } for (int i = 0; i < n + 2; i++) for (int k = 0; k < n; k++) p.grad[i][k] = Sg("g", i, k, -1, 1); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) p.B[i][k] = Sg("B", i, k, -1, 1); gs_assume(p.rho / p.ndens > 0.05);
  DomainBox<n> box; for (int k = 0; k < 3; k++) { box.boundary_lhs[k] = box.boundary_rhs[k] = openBoundary; box.min[k] = -10; box.max[k] = 10; box.size[k] = 20; } int ax = gs_choose("axis", n), side = gs_choose("side", 2), per = gs_choose("kind", 3); double L = gs_real("L", 8, 20), plane = side ? p.r[ax] - gs_real("out", 0.01, 1) : p.r[ax] + gs_real("out", 0.01, 1); box.size[ax] = L; box.half[ax] = L / 2; if (side) { box.max[ax] = plane; box.min[ax] = plane - L; } else { box.min[ax] = plane; box.max[ax] = plane + L; } box.boundary_lhs[ax] = box.boundary_rhs[ax] = per == 1 ? periodicBoundary : per == 2 ? wallBoundary : mirrorBoundary;
  s->hydrodata = new MeshlessFVParticle<n>[2]; s->hydrodata[0] = p; s->hydrodata[1] = p; s->Nhydro = 1; s->hydrodata_unsafe = s->hydrodata; I.CheckBoundaries(box, s); MeshlessFVParticle<n>&q = s->hydrodata[0], &z = s->hydrodata[1]; s->Nhydro = 2; for (int k = 0; k < n; k++) { double a1 = Sg("a1", 0, k, -1, 1), sg = per != 1 && k == ax ? -1.0 : 1.0; z.a[k] = a1; q.a[k] = sg * a1; } int m = (F_ & 2) ? 2 : 4;
  if (m == 2) I.AdvanceParticles(m, 0.0, ts, s); else I.EndTimestep(m, 0.0, ts, s); double ek = 0, ez = 0; for (int k = 0; k < n; k++) { bool f = per != 1 && k == ax; double sg = f ? -1.0 : 1.0; gs_check_close("velocity-stays-the-image", q.v[k], sg * z.v[k], 10); double sh = per == 1 && k == ax ? (side ? -L : L) : 0.0; gs_check_close("position-stays-the-image", q.r[k], (f ? 2 * plane - z.r[k] : z.r[k]) + sh, 10); gs_check_close("acceleration-stays-the-image", q.a0[k], sg * z.a0[k], 10); gs_check_close("momentum-stays-the-image", q.Qcons0[k], sg * z.Qcons0[k], 10); ek += q.v[k] * q.v[k]; ez += z.v[k] * z.v[k]; }
  for (int k = 0; k < n; k++) { double sk = per != 1 && k == ax ? -1.0 : 1.0; for (int i = 0; i < n + 2; i++) gs_check_close("gradients-stay-the-image", q.grad[i][k], (per != 1 && i == ax ? -sk : sk) * z.grad[i][k], 10); for (int i = 0; i < n; i++) gs_check_close("matrix-stays-the-image", q.B[i][k], (per != 1 && i == ax ? -sk : sk) * z.B[i][k], 10); }
  gs_check_close("mass-same-as-image", q.m, z.m, 10); gs_check_close("energy-same-as-image", q.m * (q.u + 0.5 * ek), z.m * (z.u + 0.5 * ez), 100); gs_cover(per == 1 ? "wrapped" : "mirrored"); }
// ---- T02, T04: the finite-volume timestep criterion and limiter
template <int n> void mcrit() {
  World<n> w("hllc"); auto* s = w.template make<MF<n> >(); if (NN & 1) *(int*)&s->hydro_forces = 0; *(int*)&s->self_gravity = (NN & 2) ? 1 : 0; MfvIntegration<n, MeshlessFVParticle> I(&w.P); MeshlessFVParticle<n> p; particle<n>(p, NULL, 0); double a2 = 0; for (int k = 0; k < n; k++) { p.a0[k] = Sg("a0", 0, k, -3, 3); a2 += p.a0[k] * p.a0[k]; } gs_assume(a2 > 0.01); p.vsig_max = gs_real("vsig", 0.1, 5); double t = I.Timestep(p, s), q = t / 0.3; gs_check("positive", t > 0); if ((NN & 1) && !(NN & 2)) { gs_check("no-forces-no-limit", t > 1e9); gs_cover("criterion"); return; }
  gs_check("acceleration-limit", q * q * sqrt(a2) <= 1.000001 * p.h); bool b = q * q * sqrt(a2) >= 0.999999 * p.h; if (!(NN & 1)) { gs_check("courant-limit", t * p.vsig_max <= 1.000001 * 0.4 * p.h); if (F_ & 8) gs_check("viscous-limit", t <= 1.000001 * 0.1 * 0.5 * p.h * p.h); if (!b) b = t * p.vsig_max >= 0.999999 * 0.4 * p.h; if (!b && (F_ & 8)) b = t >= 0.999999 * 0.1 * 0.5 * p.h * p.h; } gs_check("some-criterion-binds", b); gs_cover("criterion"); }
template <int n> void mlimit() {
  World<n> w("hllc"); auto* s = w.template make<MF<n> >(); MfvIntegration<n, MeshlessFVParticle> I(&w.P); CodeTiming ct; I.timing = &ct; MeshlessFVParticle<n> p; particle<n>(p, NULL, 0); double ts = gs_real("ts", 0.001, 0.01); setup(p, ts); if (F_ & 2) s->timestep_limiter = "none"; int L0 = NN, diff = 1 + gs_choose("diff", 2); p.level = gs_choose("level", L0 + 1); p.nstep = 1 << (L0 - p.level); p.levelneib = gs_choose("levelneib", L0 + 1); int dn = 1 + gs_choose("dn", p.nstep); p.nlast = p.nstep * gs_choose("start", (1 << L0) / p.nstep); int nn = p.nlast + dn; p.dt = p.nstep * ts; for (int i = 0; i < n + 2; i++) { p.dQdt[i] = Sg("dq", i, 0, -0.1, 0.1); p.dQ[i] = p.dQdt[i] * p.dt; } p.flags.unset(active);
  s->hydrodata = new MeshlessFVParticle<n>[2]; s->hydrodata[0] = p; s->hydrodata[1] = p; s->hydrodata[1].flags.set(dead); s->Nhydro = 2; I.CheckTimesteps(diff, L0, nn, ts, s); MeshlessFVParticle<n>&q = s->hydrodata[0], &z = s->hydrodata[1]; gs_check("dead-untouched", z.nstep == p.nstep && z.level == p.level && !z.flags.check(active)); gs_check("start-kept", q.nlast == p.nlast); bool over = p.levelneib - p.level > diff && dn != p.nstep && !(F_ & 2); int ln = p.levelneib - diff, al = over ? 1 << (L0 - ln) : 1; double span = q.nstep * ts; gs_check_close("step-length-is-the-time-it-spans", q.dt, span, 1); for (int i = 0; i < n + 2; i++) gs_check_close("transfer-matches-the-step", q.dQ[i], p.dQdt[i] * span, 10);
  if (q.nstep == p.nstep) { gs_check("untouched-unless-neighbours-much-finer", q.level == p.level && !q.flags.check(active) && (!over || dn % al != 0)); if (over) gs_cover("waiting"); else gs_cover("untouched"); }
  else { gs_check("new-level-within-ratio", over && q.level == ln && q.flags.check(active)); gs_check("shortened-step-ends-now-or-later-but-earlier-than-before", q.nlast + q.nstep >= nn && q.nstep < p.nstep); gs_check("shortened-step-ends-aligned", (q.nlast + q.nstep) % al == 0); gs_cover("shortened"); } }
#endif
extern "C" void gs_main() {
  char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[4] = {1, 0, 1, 0}; for (int i = 0; i < 4; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } int d = v[0]; F_ = v[1]; NN = v[2]; W_ = v[3];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, d) }
#ifdef STUBFLUX
  T(muscl) T(musclz) T(rk) T(rkz) T(rest) T(rkrest) T(rkside) T(linear)
#else
  T(hllcf) T(mfh) T(mgrav) T(conv) T(step) T(mcrit) T(mlimit) T(mirror)
#endif
}
