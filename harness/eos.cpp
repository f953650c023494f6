// E01 equations of state
#include "gsym.h"
#include "EOS.h"
#include "Nbody.h"
#include "Parameters.h"
#include "SimUnits.h"
static double gam, mu, T0, rhob;
static void scales(SimUnits& u) { u.temp.outscale = 2.0; u.rho.outscale = 3.0; u.rho.outcgs = 0.5; }
template <int ndim> EosParticleProxy<ndim> proxy() {
  EosParticleProxy<ndim> p; p.rho = gs_real("rho", 0.01, 100); p.u = gs_real("u", 0.01, 100); p.p = gs_real("p", 0.01, 100); p.ionfrac = 0; p.ionstate = 0;
  char b[8]; for (int k = 0; k < ndim; k++) { sprintf(b, "r%d", k); p.r[k] = gs_real(b, -3, 3); sprintf(b, "v%d", k); p.v[k] = gs_real(b, -3, 3); } return p; }
// gamma used in P = (gamma-1) rho u; snd: gamma in the squared sound speed
template <int ndim> void common(EOS<ndim>& e, EosParticleProxy<ndim> p, double g, double snd, double mubar, bool temp = true) {
  p.u = e.SpecificInternalEnergy(p); const double S = 1;
  gs_check("energy-positive", p.u > 0);
  double P = e.Pressure(p), c = e.SoundSpeed(p), sc = 100 * fabs(p.u * p.rho);
  gs_check("pressure-positive", P > 0); gs_check("sound-speed-positive", c > 0);
  gs_check_close("ideal-gas-pressure", P / (p.rho * p.u), g - 1, S); gs_check_close("sound-speed-squared", c * c / p.u, snd * (g - 1), S);
  if (temp) gs_check_close("temperature-is-mu-P-over-rho", e.Temperature(p) / p.u, mubar * (g - 1), S);
  p.p = P; gs_check_close("energy-from-pressure-inverts", e.InternalEnergyFromPressure(p) / p.u, 1.0, S);
  gs_check_close("entropy-function", e.EntropicFunction(p) * pow(p.rho, g) / P, 1.0, S);
  StateVector<ndim> s; e.ConstructStateVector(p, s); double ek = 0;
  gs_check_close("state-density", s.Ucons.density, p.rho, 1); gs_check_close("state-density", s.Wprim.density, p.rho, 1); gs_check_close("state-pressure", s.Wprim.pressure, P, 1); gs_check_close("state-sound", s.sound_speed, c, 1);
  for (int k = 0; k < ndim; k++) { ek += 0.5 * p.v[k] * p.v[k]; gs_check_close("state-velocity", s.Wprim.velocity[k], p.v[k], 1); gs_check_close("state-momentum", s.Ucons.momentum[k], p.rho * p.v[k], 100); }
  gs_check_close("state-energy", s.Ucons.energy, p.rho * (p.u + ek), 1000);
}
template <int ndim> void stars(Nbody<ndim>& nb, int n) {
  nb.stardata = new StarParticle<ndim>[n]; nb.Nstar = n; char b[8];
  for (int i = 0; i < n; i++) for (int k = 0; k < ndim; k++) { sprintf(b, "s%d%d", i, k); nb.stardata[i].r[k] = gs_real(b, -3, 3); }
}
template <int ndim> void go(const char* a) {
  Parameters sp; SimUnits un; scales(un);
  gam = gs_choose("gamma", 2) ? 5.0 / 3.0 : 1.4; mu = gs_real("mu_bar", 0.5, 3); T0 = gs_real("temp0", 0.5, 30); rhob = gs_real("rho_bary", 0.1, 10);
  double eta = gs_choose("eta", 2) ? 2.0 : 1.25, K = gs_real("Kpoly", 0.1, 10);
  sp.floatparams["gamma_eos"] = gam; sp.floatparams["mu_bar"] = mu; sp.floatparams["temp0"] = T0; sp.floatparams["rho_bary"] = rhob; sp.floatparams["eta_eos"] = eta; sp.floatparams["Kpoly"] = K;
  const double t0 = T0 / 2.0, rb = rhob / 1.5;
  EosParticleProxy<ndim> p = proxy<ndim>();
  if (!strcmp(a, "adiabatic")) { Adiabatic<ndim> e(&sp, &un); double u = p.u; gs_check_close("energy-kept", e.SpecificInternalEnergy(p), u, 1); common<ndim>(e, p, gam, gam, mu); gs_cover("adiabatic"); }
  if (!strcmp(a, "isothermal")) { Isothermal<ndim> e(&sp, &un); gs_check_close("isothermal-temperature", e.Temperature(p), t0, 1); common<ndim>(e, p, gam, 1, mu); gs_cover("isothermal"); }
  if (!strcmp(a, "polytropic")) { Polytropic<ndim> e(&sp, &un); p.u = e.SpecificInternalEnergy(p); gs_check_close("polytropic-law", e.Pressure(p) / pow(p.rho, eta), K, 10); common<ndim>(e, p, eta, 1, 1); gs_cover("polytropic"); }
  if (!strcmp(a, "barotropic")) { Barotropic<ndim> e(&sp, &un); double T = e.Temperature(p); gs_check_close("barotropic-law", T, t0 * (1 + pow(p.rho / rb, gam - 1)), 100); gs_check_le("barotropic-floor", t0, T, 1); common<ndim>(e, p, gam, 1, mu);
    EosParticleProxy<ndim> q = p; q.rho = gs_real("rho2", 0.01, 100); gs_assume(q.rho > p.rho); gs_check_le("barotropic-monotone", T, e.Temperature(q), 1); gs_cover("barotropic"); }
  if (!strcmp(a, "barotropic2")) { Barotropic2<ndim> e(&sp, &un); double T = e.Temperature(p); if (p.rho < rb) { gs_check_close("barotropic2-isothermal-below", T, t0, 1); gs_cover("below"); } else { gs_check_close("barotropic2-adiabatic-above", T, t0 * pow(p.rho / rb, gam - 1), 100); gs_cover("above"); }
    gs_check_le("barotropic-floor", t0, T, 1); common<ndim>(e, p, gam, 1, mu); }
  if (!strcmp(a, "locally")) { double tl = gs_choose("templaw", 2) ? 0.5 : 1.0, tm = gs_real("tempmin", 0.1, 10); sp.floatparams["templaw"] = tl; sp.floatparams["tempmin"] = tm; LocallyIsothermal<ndim> e(&sp, &un);
    Nbody<ndim>& nb = *(Nbody<ndim>*)calloc(1, sizeof(Nbody<ndim>)); int n = 1 + gs_choose("nstar", 2); stars<ndim>(nb, n); e.set_nbody_data(&nb); double T = e.Temperature(p), d[2];
    for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < ndim; k++) s += (p.r[k] - nb.stardata[i].r[k]) * (p.r[k] - nb.stardata[i].r[k]); gs_assume(s > 1e-4); d[i] = sqrt(s); }
    gs_check_le("temperature-floor", tm / 2.0, T, 10); double dm = n == 2 && d[1] < d[0] ? d[1] : d[0], law = t0 * pow(dm, -tl); gs_check_close("nearest-star-temperature-law", T, law > tm / 2.0 ? law : tm / 2.0, 100); common<ndim>(e, p, gam, 1, mu); gs_cover("locally"); }
  if (!strcmp(a, "disc")) { double q = gs_choose("q", 2) ? 0.25 : 0.5, hr = gs_real("Hr", 0.01, 0.3), ri = gs_real("Rin", 0.1, 2); sp.floatparams["DiscIcQ"] = q; sp.floatparams["DiscIcHr"] = hr; sp.floatparams["DiscIcRin"] = ri; DiscLocallyIsothermal<ndim> e(&sp, &un);
    Nbody<ndim>& nb = *(Nbody<ndim>*)calloc(1, sizeof(Nbody<ndim>)); stars<ndim>(nb, 1); e.set_nbody_data(&nb); double s = 0; for (int k = 0; k < ndim; k++) s += (p.r[k] - nb.stardata[0].r[k]) * (p.r[k] - nb.stardata[0].r[k]); gs_assume(s > 1e-4);
    gs_check_close("disc-sound-speed-law", e.SoundSpeed(p), hr * sqrt(1 / ri) * pow(sqrt(s) / ri, -q), 1); common<ndim>(e, p, gam, 1, mu); gs_cover("disc"); }
  if (!strncmp(a, "ion", 3)) { const char* o[3] = {"energy_eqn", "isothermal", "barotropic"}; int w = gs_choose("gas_eos", 3); sp.stringparams["gas_eos"] = o[w]; IonisingRadiation<ndim> e(&sp, &un); EOS<ndim>* in;
    if (w == 0) in = new Adiabatic<ndim>(&sp, &un); else if (w == 1) in = new Isothermal<ndim>(&sp, &un); else in = new Barotropic<ndim>(&sp, &un);
    p.ionstate = gs_choose("ionstate", 2); double u = e.SpecificInternalEnergy(p), ui = in->SpecificInternalEnergy(p); if (!p.ionstate) gs_check_close("neutral-gas-uses-inner-eos", u, ui, 1); else { gs_check_le("ionised-gas-not-below-inner", ui, u, 1); gs_check_le("ionised-gas-not-below-stored", p.u, u, 1); gs_check("ionised-gas-one-of-both", u == ui || u == p.u); }
    p.u = u; gs_check_close("ion-pressure", e.Pressure(p) / (p.rho * u), gam - 1, 1); gs_check_close("ion-sound-speed", e.SoundSpeed(p), in->SoundSpeed(p), 1); gs_check_close("ion-temperature", e.Temperature(p), in->Temperature(p), 1); gs_cover("ionising"); }
  if (!strncmp(a, "mc", 2)) { const char* o[3] = {"energy_eqn", "isothermal", "barotropic"}; int w = gs_choose("gas_eos", 3); sp.stringparams["gas_eos"] = o[w]; double ti = gs_real("temp_ion", 1, 100), mi = gs_real("mu_ion", 0.3, 2); sp.floatparams["temp_ion"] = ti; sp.floatparams["mu_ion"] = mi; MCRadiationEOS<ndim> e(&sp, &un); EOS<ndim>* in;
    if (w == 0) in = new Adiabatic<ndim>(&sp, &un); else if (w == 1) in = new Isothermal<ndim>(&sp, &un); else in = new Barotropic<ndim>(&sp, &un);
    double x = p.ionfrac = gs_real("ionfrac", 0, 1); double T = e.Temperature(p), a0 = in->Temperature(p), b0 = ti / 2.0; gs_check_close("mc-temperature-mix", T, x * b0 + (1 - x) * a0, 100);
    double ui = in->SpecificInternalEnergy(p), uh = b0 / mi / (gam - 1); gs_check_close("mc-energy-mix", e.SpecificInternalEnergy(p), x * uh + (1 - x) * ui, 100); gs_check_close("mc-sound-mix", e.SoundSpeed(p), x * sqrt(b0 / mi) + (1 - x) * in->SoundSpeed(p), 10); gs_cover("mcradiation"); }
}
extern "C" void gs_main() { const char* a = gs_arg(); int d = a[0] - '0'; a += 2; if (d == 1) go<1>(a); if (d == 2) go<2>(a); if (d == 3) go<3>(a); }
