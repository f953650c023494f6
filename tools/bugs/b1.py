SETUP_SPH = '''
static Parameters P; static SimUnits U;
struct Tst { int n; };
'''
BUGS = [
 dict(id='K01-quintic-womega-3d', prop='K01', inc=['SmoothingKernel.h'], pre='',
  edits=[('Headers/SmoothingKernel.h', '''      (-51.0*(ndim) - 75.0*((ndim) + 1.0)*s + 210.0*((ndim) + 2.0)*s*s -
       150.0*((ndim) + 3.0)*pow(s,3) + 45.0*((ndim) + 4.0)*pow(s,4) -
       5.0*((ndim) + 5.0)*pow(s,5));''', '''      (-51.0*(ndim) - 75.0*((ndim) + 1.0)*s + 210.0*((ndim) + 2.0)*s*s -
       150.0*((ndim) + 3.0)*pow(s,3) + 45.0*(max(ndim, 2) + 4.0)*pow(s,4) -
       5.0*((ndim) + 5.0)*pow(s,5));''')],
  demo='''QuinticKernel<1> k("quintic"); double s = 1.5, h = 1e-5; EXPECT(k.womega(s), -1*k.w0(s) - s*(k.w0(s+h)-k.w0(s-h))/(2*h), 1e-6);
  QuinticKernel<3> q("quintic"); EXPECT(q.womega(s), -3*q.w0(s) - s*(q.w0(s+h)-q.w0(s-h))/(2*h), 1e-6);''',
  needs='quintic kernel in one dimension with a neighbour at a separation between one and two smoothing lengths', breaks='grad-h term derivative of the quintic kernel no longer is -(ndim W + s dW/ds)'),
 dict(id='B02-mixed-boundaries', prop='B02', inc=['DomainBox.h'],
  edits=[('Headers/DomainBox.h', '''    if (box.boundary_lhs[k] == periodicBoundary && box.boundary_rhs[k] == periodicBoundary) {
      if (dr[k] > box.half[k]) dr_corr[k] = -box.size[k];''', '''    if (box.boundary_lhs[0] == periodicBoundary && box.boundary_rhs[k] == periodicBoundary) {
      if (dr[k] > box.half[k]) dr_corr[k] = -box.size[k];''')],
  demo='''DomainBox<2> b; for (int k=0;k<2;k++) { b.min[k]=0; b.max[k]=1; b.size[k]=1; b.half[k]=0.5; }
  b.boundary_lhs[0]=b.boundary_rhs[0]=openBoundary; b.boundary_lhs[1]=b.boundary_rhs[1]=periodicBoundary; FLOAT dr[2]={0.8,0.8}, c[2]; NearestPeriodicVector(b,dr,c); EXPECT(dr[0],0.8,1e-12); EXPECT(dr[1],-0.2,1e-12);''',
  needs='a box open in x and periodic in another axis, with a separation beyond half the box along that axis', breaks='separations along a periodic axis are not wrapped when x is not periodic'),
 dict(id='N01-gas-star-softening', prop='N01', inc=['Nbody.h','GradhSph.h' ] if 0 else ['Nbody.h','Hydrodynamics.h','Sph.h'],
  edits=[('Nbody/NbodyHermite4.cpp', '''    drmag    = sqrt(drsqd);
    invdrmag = 1.0/drmag;
    invhmean = 2.0/(star->h + part.h);''', '''    drmag    = sqrt(drsqd);
    invdrmag = 1.0/drmag;
    invhmean = (drmag < star->h + part.h) ? 2.0/(star->h + part.h) : 1.0/max(star->h, part.h);''')],
  pre='''static GradhSphParticle<3> part;
''', demo='', needs='', breaks='', skip=1),
 dict(id='R04-springel-boundary', prop='R04', inc=['SlopeLimiter.h', 'Particle.h'],
  edits=[('Headers/SlopeLimiter.h', '''        if (dW > 0)
          alpha[var] = min(alpha[var], dWmax[var] / dW) ;
        else if (dW < 0)
          alpha[var] = min(alpha[var], dWmin[var] / dW) ;''', '''        if (dW > dWmax[var])
          alpha[var] = min(alpha[var], dWmax[var] / dW) ;
        else if (dW < 2*dWmin[var])
          alpha[var] = min(alpha[var], dWmin[var] / dW) ;''')],
  demo='''MeshlessFVParticle<1> p; vector<MeshlessFVParticle<1> > n(1); p.r[0]=0; p.h=1; n[0].r[0]=1; n[0].h=1; for (int v=0; v<3; v++) { p.Wprim[v]=1; n[0].Wprim[v]=0; p.grad[v][0]=-1.5; }
  Springel2009Limiter<1> l(false); l.CellLimiter(p, n); EXPECT(p.Wprim[0] + p.alpha_slope[0]*p.grad[0][0], max(0.0, p.Wprim[0] + p.alpha_slope[0]*p.grad[0][0]), 1e-12);''',
  needs='a falling slope whose reconstruction undershoots the lowest neighbour by less than a factor two', breaks='Springel limiter lets the reconstruction leave the range of the neighbours'),
 dict(id='E01-barotropic2-join', prop='E01', inc=['EOS.h','Parameters.h','SimUnits.h','Particle.h'],
  edits=[('Thermal/Barotropic2EOS.cpp', '''  if (part.rho < rho_bary) return temp0/gammam1/mu_bar;
  else return temp0*pow(part.rho*invrho_bary,gammam1)/gammam1/mu_bar;''', '''  if (part.rho*invrho_bary < gamma) return temp0/gammam1/mu_bar;
  else return temp0*pow(part.rho*invrho_bary,gammam1)/gammam1/mu_bar;''')],
  demo='''Parameters p; p.floatparams["temp0"]=10; p.floatparams["mu_bar"]=2; p.floatparams["gamma_eos"]=1.4; p.floatparams["rho_bary"]=1; SimUnits u; Barotropic2<3> e(&p,&u); GradhSphParticle<3> g; g.rho=1.2; 
  EXPECT(e.SpecificInternalEnergy(g), e.Temperature(g)/0.4/2.0, 1e-9);''',
  needs='density between rho_bary and gamma*rho_bary', breaks='energy and temperature of the barotropic EOS disagree just above the critical density'),
 dict(id='A01-inverse-3d', prop='A01', inc=['InlineFuncs.h'],
  edits=[('Headers/InlineFuncs.h', "  B[1][2] = (A[1][0]*A[0][2] - A[0][0]*A[1][2])*invdet;\n  B[2][0] = (A[1][0]*A[2][1] - A[2][0]*A[1][1])*invdet;\n  B[2][1] = (A[2][0]*A[0][1] - A[0][0]*A[2][1])*invdet;", "  B[1][2] = (A[1][0]*A[0][2] - A[0][0]*A[1][2])*invdet;\n  B[2][0] = (A[1][0]*A[2][1] - A[2][0]*A[1][1])*invdet;\n  B[2][1] = (A[0][2]*A[1][0] - A[0][0]*A[2][1])*invdet;")],
  demo='''FLOAT A[3][3]={{2,1,0.5},{0.3,3,0.2},{0.7,0.1,4}}, B[3][3]; InvertMatrix<3>(A,B); for (int i=0;i<3;i++) for (int j=0;j<3;j++) { double s=0; for (int k=0;k<3;k++) s+=A[i][k]*B[k][j]; EXPECT(s, i==j?1:0, 1e-9); }''',
  needs='a 3x3 matrix that is not symmetric', breaks='3-D matrix inverse is only right for symmetric matrices'),
 dict(id='G02-vertical-limits', prop='G02', inc=['ExternalPotential.h'],
  edits=[], pre='', demo='', needs='', breaks='', skip=1),
]
BUGS = [b for b in BUGS if not b.get('skip')]
