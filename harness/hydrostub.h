// Constructor of the hydro base class without the choice of equation of state from strings: the harness sets eos itself.
#pragma once
#include "stubs.h"
#include "Parameters.h"
#include "SimUnits.h"
#include "EOS.h"
#include "Hydrodynamics.h"
template <int n> const FLOAT Hydrodynamics<n>::invndim = 1.0 / n;
template <int n> Hydrodynamics<n>::Hydrodynamics(int hf, int sg, FLOAT hfac, string geos, string kn, int size, SimUnits& u, Parameters* p)
  : size_hydro_part(size), hydro_forces(hf), self_gravity(sg), gas_eos(geos), h_fac(hfac), types(p), kerntab(TabulatedKernel<n>(kn)) {
  allocated = false; Nhydro = Nhydromax = NImportedParticles = Nmpighost = NPeriodicGhost = Nghost = 0; rho_sink = p->floatparams["rho_sink"]; create_sinks = p->intparams["create_sinks"]; sink_particles = p->intparams["sink_particles"]; eos = NULL; }
template class Hydrodynamics<1>; template class Hydrodynamics<2>; template class Hydrodynamics<3>;
inline double Sg(const char* f, int i, int k, double lo, double hi) { char b[16]; sprintf(b, "%s%d_%d", f, i, k); return gs_real(b, lo, hi); }
template <int n> double dot(const double* a, const double* b) { double s = 0; for (int k = 0; k < n; k++) s += a[k] * b[k]; return s; }
#define NDIMS(F, d) if (d == 1) F<1>(); if (d == 2) F<2>(); if (d == 3) F<3>();
