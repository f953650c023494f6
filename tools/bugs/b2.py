SPH = '''
static Parameters P; static SimUnits U;
template <int n> GradhSph<n, M4Kernel>* sph(aviscenum av, acondenum ac) { P.intparams["hydro_forces"] = 1; P.intparams["sink_particles"] = 0; P.intparams["create_sinks"] = 0; P.floatparams["mu_bar"] = 1; P.floatparams["gamma_eos"] = 1.4; P.stringparams["gas_eos"] = "energy_eqn";
  GradhSph<n, M4Kernel>* s = new GradhSph<n, M4Kernel>(1, 1, 1.0, 2.0, 1.2, 0.01, av, ac, notdav, "energy_eqn", "m4", U, &P); s->eos = new Adiabatic<n>(&P, &U); s->alpha_visc_min = 0.1; return s; }
template <int n> GradhSphParticle<n> part(double x, double v, double m, double h, double rho, double u) { GradhSphParticle<n> p; for (int k = 0; k < n; k++) { p.r[k] = p.v[k] = p.a[k] = p.atree[k] = 0; } p.r[0] = x; p.v[0] = v; p.m = m; p.h = h; p.rho = rho; p.u = u; p.alpha = 1; p.hfactor = pow(1/h, n+1); p.hrangesqd = 4*h*h; p.invomega = 1.1; p.zeta = 0; p.dudt = p.div_v = p.dalphadt = p.gpot = 0; p.ptype = gas_type; return p; }
template <int n, class S> void force(S* s, int f, GradhSphParticle<n>& p, GradhSphParticle<n>& q) { typedef typename GradhSphParticle<n>::HydroForcesParticle H; vector<H> v; vector<int> ix; v.push_back(H(p)); v.push_back(H(q)); ix.push_back(1); NeighbourList<H> l(ix, v); if (f == 0) s->ComputeSphHydroForces(p, l); else s->ComputeSphHydroGravForces(p, l); }
'''
SI = ['Sph.h', 'EOS.h', 'Parameters.h', 'SimUnits.h', 'Particle.h']
BUGS = [
 dict(id='H01-conductivity-gravity', prop='H01', inc=SI, pre=SPH,
  edits=[('GradhSph/GradhSph.cpp', '''0.5*neibpart[j].m*(parti.u - neibpart[j].u)*
          winvrho*(invrho_i + invrho_j)*''', '''neibpart[j].m*(parti.u - neibpart[j].u)*
          winvrho*invrho_i*''', 1)],
  demo='''GradhSph<1,M4Kernel>* s = sph<1>(mon97, price2008); GradhSphParticle<1> p = part<1>(0,1,1,1,1,1), q = part<1>(0.7,-1,1,1,2,3); s->ComputeThermalProperties(p); s->ComputeThermalProperties(q); GradhSphParticle<1> a=p, b=q; force(s,1,a,q); force(s,1,b,p);
  EXPECT(a.m*a.v[0]*a.a[0] + b.m*b.v[0]*b.a[0] + a.m*a.dudt + b.m*b.dudt, 0, 1e-10);''',
  needs='self-gravitating grad-h SPH with price2008 conductivity and a pair of different densities approaching each other', breaks='the heat conducted out of one particle is not the heat that the other receives'),
 dict(id='H02-mm97-source', prop='H02', inc=SI, pre=SPH,
  edits=[('GradhSph/GradhSph.cpp', '''    parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
        max(-parti.div_v, (FLOAT) 0.0)*(alpha_visc - parti.alpha);
  }

  return;
}



//=================================================================================================
//  GradhSph::ComputeSphHydroGravForces''', '''    parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
        max(-parti.div_v, (FLOAT) 0.0)*(alpha_visc - parti.alpha);
    if (parti.levelneib > parti.level + 1) parti.dalphadt = max(parti.dalphadt, (FLOAT) 0.0);
  }

  return;
}



//=================================================================================================
//  GradhSph::ComputeSphHydroGravForces''')],
  demo='''GradhSph<1,M4Kernel>* s = sph<1>(mon97mm97, noac); s->tdavisc = mm97; GradhSphParticle<1> p = part<1>(0,-1,1,1,1,1), q = part<1>(0.7,1,1,1,2,3); p.level=0; p.levelneib=0; q.level=5; s->ComputeThermalProperties(p); s->ComputeThermalProperties(q); force(s,0,p,q); EXPECT(p.dalphadt, 0.1*p.sound*(s->alpha_visc_min-1)/p.h, 1e-9);'''.replace('s->tdavisc = mm97; ', '').replace('s = sph', 's = sphtd'),
  needs='time-dependent viscosity with block timesteps: a particle whose neighbour is on a level at least two finer', breaks='the viscosity switch does not decay in expanding gas next to particles with fine timesteps'),
 dict(id='N02-hermite-block-correct', prop='N02', inc=['Nbody.h'],
  edits=[('Nbody/NbodyHermite4.cpp', '''      for (k=0; k<ndim; k++) {
        star[i]->r[k] += star[i]->a2dot[k]*dt3*dt/24.0 + star[i]->a3dot[k]*dt3*dt*dt/120.0;
        star[i]->v[k] += star[i]->a2dot[k]*dt3/6.0 + star[i]->a3dot[k]*dt3*dt/24.0;
      }
    }

  }
  //-----------------------------------------------------------------------------------------------

  return;
}



//=================================================================================================
//  NbodyHermite4::PerturberCorrectionTerms''', '''      for (k=0; k<ndim; k++) {
        star[i]->r[k] += star[i]->a2dot[k]*dt3*dt/24.0 + star[i]->a3dot[k]*dt3*dt*dt/120.0;
        star[i]->v[k] += star[i]->a2dot[k]*dt3/6.0 + star[i]->a3dot[k]*dt3*timestep/24.0;
      }
    }

  }
  //-----------------------------------------------------------------------------------------------

  return;
}



//=================================================================================================
//  NbodyHermite4::PerturberCorrectionTerms''')],
  demo='''NbodyHermite4<1,M4Kernel> nb(0,0,0,0.1,"m4",1); NbodyParticle<1> s; NbodyParticle<1>* l[1]={&s}; s.nlast=0; s.nstep=4; s.tlast=0; double dt=0.4; s.r0[0]=s.v0[0]=s.a0[0]=0; s.adot0[0]=0; /* a = t^3 */ s.a[0]=dt*dt*dt; s.adot[0]=3*dt*dt; s.v[0]=0; s.r[0]=0; s.a2dot[0]=s.a3dot[0]=0; nb.CorrectionTerms(4,1,dt,0.1,l); EXPECT(s.v[0], dt*dt*dt*dt/4, 1e-7);''',
  needs='fourth-order Hermite with block timesteps: a star whose step is several base steps long', breaks='velocity corrector uses the base step instead of the star own step'),
 dict(id='M02-energy-work', prop='M02', inc=['MeshlessFV.h','MfvIntegration.h','EOS.h','Parameters.h','SimUnits.h','Particle.h'], skip=1, edits=[], demo='', needs='', breaks=''),
 dict(id='R02-shear-upwind', prop='R02', inc=['RiemannSolver.h'],
  edits=[('Hydrodynamics/RiemannSolver.cpp', '''      if (u > 0.0) {
        for (k=1; k<ndim; k++) Wface[k] = uleft[k];
      }''', '''      if (uleft[0] + uright[0] > 0.0) {
        for (k=1; k<ndim; k++) Wface[k] = uleft[k];
      }''')],
  demo='''ExactRiemannSolver<2> r(1.4,false); FLOAT L[4]={0.1,1,1,1}, Rr[4]={0.1,-1,1,10}, n[2]={1,0}, v[2]={0,0}, f[4][2]; r.ComputeFluxes(L,Rr,n,v,f); EXPECT(f[1][0], fabs(f[2][0]), 1e-6); EXPECT(f[2][0] < 0, 1, 0);''',
  needs='exact solver with shear across the face and a pressure difference that drives the contact against the mean flow', breaks='transverse momentum is taken from the downwind side of the contact'),
]
BUGS = [b for b in BUGS if not b.get('skip')]
BUGS[1]['pre'] = SPH + SPH[SPH.index('template <int n> GradhSph<n'):SPH.index('template <int n> GradhSphParticle')].replace('* sph(', '* sphtd(').replace('notdav', 'mm97')
