// H01-H04: grad-h and Saitoh-Makino SPH pair forces, dissipation, smoothing lengths, gravity
#include "gsym.h"
#include "hydrostub.h"
#include "Sph.h"
#include "Nbody.h"
template <int n> struct World {
  Parameters P; SimUnits U; EOS<n>* eos;
  World() { P.intparams["hydro_forces"] = 1; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; eos = new Adiabatic<n>(&P, &U); }
  double alpha, beta, hfac, amin;
  void sym() { alpha = gs_real("alpha", 0.05, 2); beta = gs_real("beta", 0, 4); amin = 0.05; hfac = 1.2; double g = gs_real("gamma", 1.1, 2); *(FLOAT*)&eos->gamma = g; *(FLOAT*)&eos->gammam1 = g - 1; } };
static aviscenum AV[] = {noav, mon97, mon97mm97, mon97cd2010}; static acondenum AC[] = {noac, wadsley2008, price2008}; static tdaviscenum TD[] = {notdav, mm97, cd2010};
template <int n, template <int> class K> GradhSph<n, K>* gradh(World<n>& w, int av, int ac, int td, const char* kn, double hconv = 0.01) { auto* s = new GradhSph<n, K>(1, 1, w.alpha, w.beta, w.hfac, hconv, AV[av], AC[ac], TD[td], "energy_eqn", kn, w.U, &w.P); s->eos = w.eos; s->alpha_visc_min = w.amin; return s; }
template <int n, template <int> class K> SM2012Sph<n, K>* sm(World<n>& w, int av, int ac, const char* kn) { auto* s = new SM2012Sph<n, K>(1, 1, w.alpha, w.beta, w.hfac, 0.01, AV[av], AC[ac], notdav, "energy_eqn", kn, w.U, &w.P); s->eos = w.eos; s->alpha_visc_min = w.amin; return s; }
template <int n, class T> void particle(T& p, T* rel, int i, World<n>& w) {
  for (int k = 0; k < n; k++) { p.r[k] = (rel ? rel->r[k] : 0.0) + Sg("r", i, k, -3, 3); p.v[k] = (rel ? rel->v[k] : 0.0) + Sg("v", i, k, -3, 3); p.a[k] = p.atree[k] = 0; }
  p.m = Sg("m", i, 0, 0.1, 10); p.h = Sg("h", i, 0, 0.3, 2); p.rho = Sg("rho", i, 0, 0.1, 10); p.u = Sg("u", i, 0, 0.1, 10); p.alpha = Sg("al", i, 0, 0.05, 2);
  double ih = 1 / p.h; p.hfactor = pow(ih, n + 1); p.hrangesqd = 4 * p.h * p.h; p.dudt = p.div_v = p.dalphadt = p.gpot = 0; p.iorig = i; p.ptype = gas_type; }
template <int n> void grad(GradhSphParticle<n>& p, int i, World<n>& w, Sph<n>* s) { p.invomega = Sg("iom", i, 0, 0.5, 2); p.zeta = Sg("zeta", i, 0, -2, 2); s->ComputeThermalProperties(p); }
template <int n> double sep(Particle<n>& a, Particle<n>& b, double* d) { double s = 0; for (int k = 0; k < n; k++) { d[k] = b.r[k] - a.r[k]; s += d[k] * d[k]; } return s; }
template <int n> void reset(SphParticle<n>& p) { for (int k = 0; k < n; k++) p.a[k] = p.atree[k] = 0; p.dudt = p.div_v = p.dalphadt = p.gpot = 0; }
template <int n, class S, class N> void call(S* s, int f, GradhSphParticle<n>& p, N& list) { if (f == 0) s->ComputeSphHydroForces(p, list); else if (f == 1) s->ComputeSphHydroGravForces(p, list); else s->ComputeSphGravForces(p, list); }
typedef vector<int> VI;
template <int n, class S> void force(S* s, int f, GradhSphParticle<n>& p, GradhSphParticle<n>& q, int* lev = NULL) { typedef typename GradhSphParticle<n>::HydroForcesParticle H; vector<H> v; VI ix; GradhSphParticle<n> far = q; v.push_back(H(p)); v.push_back(H(q)); ix.push_back(1); NeighbourList<H> l(ix, v); call(s, f, p, l); if (lev) *lev = v[1].levelneib; }
static int F_ = 0, AV_ = 1, AC_ = 0;
// ---- H01
template <int n, template <int> class K> void pairK(const char* kn) {
  World<n> w; w.sym(); auto* s = gradh<n, K>(w, AV_, AC_, AV_ == 2 ? 1 : 0, kn); GradhSphParticle<n> p, q; particle<n>(p, (GradhSphParticle<n>*)0, 0, w); particle(q, &p, 1, w); grad(p, 0, w, s); grad(q, 1, w, s); double d[n]; gs_assume(sep(p, q, d) > 0.01);
  p.level = 2; q.level = 3; p.levelneib = 1; int lev; force(s, F_, p, q, &lev); gs_check("neighbour-level-recorded", p.levelneib == 3 && lev == 2); GradhSphParticle<n> t = q; force(s, F_, t, p);
  double e = 0; for (int k = 0; k < n; k++) { gs_check_close("momentum-conserved", p.m * p.a[k], -t.m * t.a[k], 1e4); e += p.m * p.v[k] * p.a[k] + t.m * t.v[k] * t.a[k]; for (int c = 0; c < k; c++) gs_check_close("force-along-separation", p.a[k] * d[c], p.a[c] * d[k], 1e4); }
  gs_check_close("energy-conserved", e, -(p.m * p.dudt + t.m * t.dudt), 1e5); double vr = 0; for (int k = 0; k < n; k++) vr += (q.v[k] - p.v[k]) * d[k]; gs_cover(vr < 0 ? "approaching" : "receding"); if (sqrt(sep(p, q, d)) > 1.000001 * K<n>(kn).kernrange * max(p.h, q.h)) { for (int k = 0; k < n; k++) gs_check_close("no-force-outside-kernels", p.a[k], 0, 100); gs_cover("outside"); } }
template <int n> void gpair() { pairK<n, M4Kernel>("m4"); }
template <int n> void gpairq() { pairK<n, QuinticKernel>("quintic"); }
template <int n, class T> void smforce(T* s, SM2012SphParticle<n>& p, SM2012SphParticle<n>& q) { double d[n], r = sqrt(sep(p, q, d)), ir = 1 / r, u[n]; for (int k = 0; k < n; k++) u[k] = d[k] * ir; int nl[1] = {0}; SM2012SphParticle<n> v[1] = {q}; s->ComputeSphHydroForces(0, 1, nl, &r, &ir, u, p, v); q = v[0]; }
template <int n> void smpair() {
  World<n> w; w.sym(); auto* s = sm<n, M4Kernel>(w, AV_, AC_, "m4"); SM2012SphParticle<n> p, q; particle<n>(p, (SM2012SphParticle<n>*)0, 0, w); particle(q, &p, 1, w); p.q = gs_real("qi", 0.1, 10); q.q = gs_real("qj", 0.1, 10); s->ComputeThermalProperties(p); s->ComputeThermalProperties(q); double d[n]; gs_assume(sep(p, q, d) > 0.01);
  gs_check_close("inverse-energy-density", p.invq * p.q, 1, 10); SM2012SphParticle<n> p0 = p, q0 = q; smforce<n>(s, p, q); double e = 0; for (int k = 0; k < n; k++) { gs_check_close("momentum-conserved", p.m * p.a[k], -q.m * q.a[k], 1e4); e += p.m * p.v[k] * p.a[k] + q.m * q.v[k] * q.a[k]; for (int c = 0; c < k; c++) gs_check_close("force-along-separation", p.a[k] * d[c], p.a[c] * d[k], 1e4); }
  gs_check_close("energy-conserved", e, -(p.m * p.dudt + q.m * q.dudt), 1e5); SM2012SphParticle<n> p1 = p0, q1 = q0; smforce<n>(s, q1, p1); for (int k = 0; k < n; k++) gs_check_close("pair-order-does-not-matter", p1.a[k], p.a[k], 1e4); gs_check_close("pair-order-does-not-matter", p1.dudt, p.dudt, 1e5); gs_cover("smpair"); }
// ---- H02
template <int n> void dissip() {
  World<n> w; w.sym(); auto* s = gradh<n, M4Kernel>(w, AV_, AC_, AV_ == 2 ? 1 : 0, "m4"); auto* z = gradh<n, M4Kernel>(w, 0, 0, 0, "m4"); GradhSphParticle<n> p, q; particle<n>(p, (GradhSphParticle<n>*)0, 0, w); particle(q, &p, 1, w); grad(p, 0, w, s); grad(q, 1, w, s); double d[n]; gs_assume(sep(p, q, d) > 0.01); gs_assume(p.alpha <= w.alpha); gs_assume(q.alpha <= w.alpha);
  { static const int L[3][3] = {{2, 3, 1}, {0, 4, 4}, {5, 1, 5}}; int c = n == 1 ? gs_choose("levels", 3) : (n + F_) % 3; p.level = L[c][0]; q.level = L[c][1]; p.levelneib = L[c][2]; q.levelneib = L[c][0]; }
  GradhSphParticle<n> a = p, b = p; force(s, F_, a, q); force(z, F_, b, q); double vr = 0, ar = 0; for (int k = 0; k < n; k++) { vr += (q.v[k] - p.v[k]) * d[k]; ar += (a.a[k] - b.a[k]) * d[k]; } double du = a.dudt - b.dudt;
  if (vr >= 0) { gs_check_close("no-dissipation-when-receding", du, 0, 1e3); gs_check_close("no-dissipation-when-receding", ar, 0, 1e3); gs_cover("receding"); }
  else { if (AC_ == 0) gs_check_le("viscosity-heats", 0, du, 100); else if (AV_ == 0) { gs_check_le("conduction-hot-to-cold", 0, du * (q.u - p.u), 100); gs_check_close("conduction-exerts-no-force", ar, 0, 100); } gs_check_le("viscosity-repels", ar, 0, 100); gs_cover("approaching"); }
  if (AV_ == 2) { double decay = 0.1 * p.sound * (w.amin - p.alpha) / p.h; gs_check_le("switch-never-falls-faster-than-decay", decay, a.dalphadt, 10); if (a.div_v >= 0) { gs_check_close("switch-decays-when-expanding", a.dalphadt, decay, 100); gs_cover("expanding"); } else { gs_check_close("switch-grows-under-compression", a.dalphadt, decay - a.div_v * (w.alpha - p.alpha), 100); gs_cover("compressing"); } gs_check_le("expansion-has-positive-divergence", 0, vr * a.div_v, 1); } }
template <int n> void smdissip() {
  World<n> w; w.sym(); auto* s = sm<n, M4Kernel>(w, AV_, AC_, "m4"); auto* z = sm<n, M4Kernel>(w, 0, 0, "m4"); SM2012SphParticle<n> p, q; particle<n>(p, (SM2012SphParticle<n>*)0, 0, w); particle(q, &p, 1, w); p.q = gs_real("qi", 0.1, 10); q.q = gs_real("qj", 0.1, 10); s->ComputeThermalProperties(p); s->ComputeThermalProperties(q); double d[n]; gs_assume(sep(p, q, d) > 0.01);
  SM2012SphParticle<n> a = p, b = p, c = q, e = q; smforce<n>(s, a, c); smforce<n>(z, b, e); double vr = 0, ar = 0; for (int k = 0; k < n; k++) { vr += (q.v[k] - p.v[k]) * d[k]; ar += (a.a[k] - b.a[k]) * d[k]; } double du = a.dudt - b.dudt, dv = c.dudt - e.dudt;
  if (vr >= 0) { gs_check_close("no-dissipation-when-receding", du, 0, 1e3); gs_check_close("no-dissipation-when-receding", dv, 0, 1e3); gs_check_close("no-dissipation-when-receding", ar, 0, 1e3); gs_cover("receding"); }
  else { if (AC_ == 0) { gs_check_le("viscosity-heats", 0, du, 100); gs_check_le("viscosity-heats", 0, dv, 100); } else if (AV_ == 0) { gs_check_le("conduction-hot-to-cold", 0, du * (q.u - p.u), 100); gs_check_close("conduction-exerts-no-force", ar, 0, 100); } gs_check_le("viscosity-repels", ar, 0, 100); gs_cover("approaching"); } }
// ---- H04
template <int n, template <int> class K> void gravK(const char* kn) {
  World<n> w; w.sym(); auto* s = gradh<n, K>(w, 0, 0, 0, kn); GradhSphParticle<n> p, q; particle<n>(p, (GradhSphParticle<n>*)0, 0, w); particle(q, &p, 1, w); grad(p, 0, w, s); grad(q, 1, w, s); double d[n], d2 = sep(p, q, d); gs_assume(d2 > 0.01); double r = sqrt(d2), X = K<n>(kn).kernrange; GradhSphParticle<n> p0 = p, q0 = q; K<n> k0(kn);
  GradhSphParticle<n> sp = p, sq = q; sp.level = 2; sq.level = 3; sp.levelneib = 1; s->sphdata = new GradhSphParticle<n>[2]; s->sphdata[0].level = s->sphdata[1].level = 0; force(s, 2, sp, q); sp.levelneib = 1; { GradhSphParticle<n> t = q; t.level = 3; GradhSphParticle<n> u = p; u.levelneib = 1; force(s, 2, u, t); gs_check("neighbour-level-recorded", u.levelneib == 3); } force(s, 2, sq, p);
  GradhSphParticle<n> hp = p, hq = q; force(s, 1, hp, q); force(s, 1, hq, p);
  for (int k = 0; k < n; k++) { gs_check_close("gravity-antisymmetric", sp.m * sp.atree[k], -sq.m * sq.atree[k], 1e4); gs_check_close("combined-equals-smoothed", hp.atree[k], sp.atree[k], 1e4); for (int c = 0; c < k; c++) gs_check_close("gravity-along-separation", sp.atree[k] * d[c], sp.atree[c] * d[k], 1e4); }
  gs_check_close("potential-symmetric", sp.gpot * p.m, sq.gpot * q.m, 1e3); gs_check_close("combined-equals-smoothed", hp.gpot, sp.gpot, 1e3); gs_check_close("mean-potential", sp.gpot, 0.5 * q.m * (k0.wpot(r / p.h) / p.h + k0.wpot(r / q.h) / q.h), 1e3);
  if (r > 1.000001 * X * p.h && r > 1.000001 * X * q.h) { for (int k = 0; k < n; k++) gs_check_close("newtonian-beyond-kernels", sp.atree[k] * d2 * r, q.m * d[k], 1e3); gs_check_close("newtonian-beyond-kernels", sp.gpot * r, q.m, 1e2);
    typedef typename GradhSphBase<n>::DirectNeib D; vector<D> v; VI ix(1, 0); v.push_back(D(q)); NeighbourList<D> l(ix, v); GradhSphParticle<n> dp = p0; dp.hrangesqd = X * X * p.h * p.h; v[0].hrangesqd = X * X * q.h * q.h; s->ComputeDirectGravForces(dp, l); for (int k = 0; k < n; k++) gs_check_close("direct-equals-smoothed", dp.atree[k], sp.atree[k], 1e4); gs_check_close("direct-equals-smoothed", dp.gpot, sp.gpot, 1e3); gs_cover("beyond"); } else gs_cover("within"); }
template <int n> void grav() { gravK<n, M4Kernel>("m4"); }
template <int n> void gravq() { gravK<n, QuinticKernel>("quintic"); }
template <int n> void star() { // gas feels the star exactly as the star feels the gas
  World<n> w; w.sym(); auto* s = gradh<n, M4Kernel>(w, 0, 0, 0, "m4"); GradhSphParticle<n> p; particle<n>(p, (GradhSphParticle<n>*)0, 0, w); int N = 1 + gs_choose("two", 2); StarParticle<n> st[2]; NbodyParticle<n>* ps[2]; M4Kernel<n> K("m4"); double a[n], pot = 0; for (int k = 0; k < n; k++) a[k] = 0; if (gs_choose("fixed", 2)) { s->fixed_sink_mass = 1; s->msink_fixed = gs_real("msink", 0.1, 10); } else s->fixed_sink_mass = 0;
  for (int i = 0; i < N; i++) { ps[i] = &st[i]; double d2 = 0, d[n]; st[i].m = Sg("ms", i, 0, 0.1, 10); st[i].h = Sg("hs", i, 0, 0.3, 2); for (int k = 0; k < n; k++) { d[k] = Sg("d", i, k, -3, 3); st[i].r[k] = p.r[k] + d[k]; d2 += d[k] * d[k]; } gs_assume(d2 > 0.01); double r = sqrt(d2), ih = 2 / (p.h + st[i].h), m = s->fixed_sink_mass ? s->msink_fixed : st[i].m, F = m * ih * ih * K.wgrav(r * ih); pot += m * ih * K.wpot(r * ih); for (int k = 0; k < n; k++) a[k] += F * d[k] / r; }
  s->ComputeStarGravForces(N, ps, p); for (int k = 0; k < n; k++) gs_check_close("star-gas-force", p.atree[k], a[k], 1e4); gs_check_close("star-gas-potential", p.gpot, pot, 1e3); gs_cover("star"); }
// ---- H03.  F_ bits: 1 sinks exist, 2 create sinks, 4 particle is in a sink, 8 conservative star gravity, 16 start from the exact solution of the h-rho relation
static int NN = 1;
template <int n, template <int> class K> void hK(const char* kn) {
  World<n> w; w.sym(); typedef typename SphParticle<n>::DensityParticle D; double conv = 0.01; int sinks = F_ & 1, exact = F_ & 16; w.P.intparams["sink_particles"] = sinks; w.P.intparams["create_sinks"] = (F_ >> 1) & 1; if (sinks) w.P.floatparams["rho_sink"] = gs_real("rho_sink", 0.1, 10); else w.P.floatparams["rho_sink"] = 1;
  auto* s = gradh<n, K>(w, 0, 0, 0, kn, conv); GradhSphParticle<n> p; K<n> k0(kn); double X2 = k0.kernrangesqd;
  for (int k = 0; k < n; k++) p.r[k] = Sg("r", 0, k, -1, 1); p.m = gs_real("m", 0.5, 2); p.u = 1; p.gpot = gs_real("gpot", 0.1, 10); p.h = gs_real("h", 0.3, 3); double h0 = p.h; p.rho = 77; p.invomega = 88; p.zeta = 99; double hmax = gs_real("hmax", 0.3, 3); p.sinkid = (F_ & 4) ? 0 : -1;
  vector<D> g; double d2[4], mm[4]; for (int j = 0; j <= NN; j++) { D x; x.gpot = j ? Sg("gp", j, 0, 0.1, 10) : p.gpot; d2[j] = 0; for (int k = 0; k < n; k++) { double d = j ? Sg("d", j, k, -2, 2) : 0.0; x.r[k] = p.r[k] + d; d2[j] += d * d; }
    if (exact && j == NN) { gs_assume(d2[j] < 0.7 * X2 * h0 * h0); double hf = 1; for (int k = 0; k < n; k++) hf *= w.hfac; double t = (hf - k0.w0_s2(0)) * p.m; for (int i = 1; i < j; i++) t -= mm[i] * k0.w0_s2(d2[i] / (h0 * h0)); x.m = t / k0.w0_s2(d2[j] / (h0 * h0)); gs_assume(x.m > 0.01); } else x.m = j ? Sg("mj", j, 0, 0.5, 2) : p.m; mm[j] = x.m; g.push_back(x); }
  Nbody<n>* nb = (Nbody<n>*)calloc(1, sizeof(NbodyLeapfrogKDK<n, K>)); double zs = 0, e2 = 0; int soft = 0; if (F_ & 8) { s->conservative_sph_star_gravity = 1; nb->Nstar = 1; nb->stardata = new StarParticle<n>[1]; StarParticle<n>& st = nb->stardata[0]; st.m = gs_real("ms", 0.1, 10); st.h = gs_real("hs", 0.3, 2); soft = gs_choose("softening", 2); *(int*)&nb->nbody_softening = soft; e2 = 0; for (int k = 0; k < n; k++) { double d = Sg("ds", 0, k, -2, 2); st.r[k] = p.r[k] + d; e2 += d * d; } }
  double hlow = sinks ? w.hfac * pow(p.m / s->rho_sink, 1.0 / n) : 0.0; if (exact) { gs_assume(h0 < 0.999 * hmax); gs_assume(hlow < 0.999 * h0); }
  int rc = s->ComputeH(p, hmax, g, nb); gs_check("return-code", rc == 1 || rc == 0 || rc == -1);
  if (sinks && hmax < hlow) { gs_check("reports-too-small-list", rc == -1); gs_cover("sink-list-too-small"); return; }
  if (exact) { double O = 0, Z = 0, S = 0; gs_check("converged-state-accepted", rc == 1); gs_check_close("converged-h-unchanged", p.h, h0, 1); for (int j = 0; j <= NN; j++) { double q = d2[j] / (h0 * h0); S += mm[j] * k0.w0_s2(q); O += mm[j] * k0.womega_s2(q); Z += mm[j] * k0.wzeta_s2(q); } double hn = 1; for (int k = 0; k < n; k++) hn *= h0;
    gs_check_close("density-is-kernel-sum", p.rho * hn, S, 10); double om = 1 + p.h / (n * p.rho) * O / (hn * h0); gs_assume(om > 0.01); if (F_ & 8) { double hm = soft ? 0.5 * (p.h + nb->stardata[0].h) : 0.5 * p.h; zs = nb->stardata[0].m * k0.wzeta_s2(e2 / (hm * hm)) / (hm * hm); } if (F_ & 4) { gs_check_close("no-correction-inside-sink", p.invomega, 1, 1); gs_check_close("no-correction-inside-sink", p.zeta, 0, 1); gs_cover("in-sink"); } else { gs_check_close("grad-h-correction", 1 / p.invomega, om, 10); gs_check_close("gravity-correction", p.zeta, -p.h / (n * p.rho) * (Z / (h0 * h0) + zs) * p.invomega, 100); }
    if (F_ & 2) { bool mn = true; for (int j = 1; j <= NN; j++) if (g[j].gpot > 1.000000001 * p.gpot && d2[j] < X2 * h0 * h0) mn = false; gs_check("potential-minimum-flag", (bool)p.flags.check(potmin) == mn); gs_cover(mn ? "minimum" : "not-minimum"); } gs_cover("exact"); }
  if (rc == 0) { gs_check("failure-only-when-h-exceeds-list", p.h >= hmax); gs_cover("enlarge"); return; }
  if (rc == 1) gs_check_le("h-within-list", p.h, hmax, 1); else gs_check_le("failure-only-when-h-exceeds-list", hmax, p.h, 1);
  gs_check_le("h-not-below-sink-floor", hlow, p.h, 1); double hr = w.hfac * pow(p.m / p.rho, 1.0 / n); gs_check_close("h-rho-relation", p.h, hr > hlow ? hr : hlow, 1); gs_check_close("h-factor", p.hfactor * pow(p.h, n + 1), 1, 10); gs_check_close("kernel-extent", p.hrangesqd, X2 * p.h * p.h, 10);
  if (!exact && n == 1 && p.h > 1.000001 * hlow) { double R = 0; for (int j = 0; j <= NN; j++) R += mm[j] * k0.w0_s2(d2[j] / (p.h * p.h)); gs_check_le("density-consistent-within-tolerance", R / p.h, 1.1 * p.rho, 1); gs_check_le("density-consistent-within-tolerance", 0.9 * p.rho, R / p.h, 1); }
  gs_check_close("pressure-updated", p.pressure, (w.eos->gamma - 1) * p.rho * p.u, 100); gs_cover("converged"); }
template <int n> void hm4() { hK<n, M4Kernel>("m4"); }
template <int n> void hquintic() { hK<n, QuinticKernel>("quintic"); }
extern "C" void gs_main() {
  char a[64]; strcpy(a, gs_arg()); char* f = strtok(a, "-"); int v[5] = {1, 0, 1, 0, 1}; for (int i = 0; i < 5; i++) { char* t = strtok(NULL, "-"); if (!t) break; v[i] = atoi(t); } int d = v[0]; F_ = v[1]; AV_ = v[2]; AC_ = v[3]; NN = v[4];
#define T(x) if (!strcmp(f, #x)) { NDIMS(x, d) }
  T(gpair) T(gpairq) T(smpair) T(dissip) T(smdissip) T(grav) T(gravq) T(star) T(hm4) T(hquintic)
}
