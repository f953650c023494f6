"""Which harness runs decide which property."""
KSRC = ['M4Kernel.cpp', 'QuinticKernel.cpp', 'GaussianKernel.cpp']
NB = ['Nbody.cpp', 'NbodyLeapfrogKDK.cpp', 'NbodyLeapfrogDKD.cpp', 'NbodyHermite4.cpp', 'NbodyHermite4TS.cpp', 'NbodyHermite6TS.cpp', 'M4Kernel.cpp', 'QuinticKernel.cpp', 'GaussianKernel.cpp']
HL = [(w, z, i) for w in range(5) for z in (0, 1) for i in (0, 1) if not (w == 2 and z) and not (w == 3 and not z)]
SPH = ['GradhSph.cpp', 'SM2012Sph.cpp', 'Sph.cpp', 'Particle.cpp', 'AdiabaticEOS.cpp', 'Parameters.cpp', 'SimUnits.cpp', 'Exception.cpp'] + NB
MFVS = ['MeshlessFV.cpp', 'FV.cpp', 'Particle.cpp', 'AdiabaticEOS.cpp', 'Parameters.cpp', 'SimUnits.cpp', 'Exception.cpp', 'M4Kernel.cpp', 'QuinticKernel.cpp', 'GaussianKernel.cpp']
MFV = MFVS + ['MfvCommon.cpp', 'MfvMuscl.cpp', 'MfvIntegration.cpp', 'RiemannSolver.cpp']
SIM = ['Simulation.cpp', 'Parameters.cpp', 'SimUnits.cpp', 'Exception.cpp', 'Particle.cpp'] + NB
TST = ['SphLeapfrogKDK.cpp', 'SphLeapfrogDKD.cpp', 'SphIntegration.cpp', 'Integration.cpp'] + SPH
TREE = ['Tree.cpp', 'KDTree.cpp', 'OctTree.cpp', 'BruteForceTree.cpp'] + SPH
PROPS = {
 'K01': dict(runs=[dict(harness='kernels', args=['%s-%d' % (k, d) for k in ('m4', 'quintic', 'gauss') for d in (1, 2, 3)], srcs=KSRC, cover=['inside', 'outside'])], par=4,
    bounds='every s in [0,4], ndim 1..3, all three analytic kernels; normalisation exact (Gauss-Legendre of sufficient degree)'),
 'K02': dict(runs=[dict(harness='kernels', args=['grav-m4', 'grav-quintic'], srcs=KSRC, cover=['inside', 'outside'])], par=4,
    bounds='every s in [0.01,4]'),
 'R01': dict(runs=[dict(harness='riemann', srcs=['RiemannSolver.cpp'], args=['hllc-1-%d-%d-%d' % c for c in HL] + ['hllc-2-%d-%d-%d' % c for c in HL if c[0] in (0, 3, 4)] + ['a-hllc-2-%d-%d-%d' % c for c in HL if c[0] in (1, 2, 3)], qms={'quick': 1200, 'thorough': 15000}, wall={'quick': 14, 'thorough': 200}, cover=['consistency', 'exchange', 'supersonic', 'zero-mass-flux', 'galilean']),
   dict(harness='riemann', srcs=['RiemannSolver.cpp'], tier='thorough', args=['hllc-2-%d-%d-%d' % c for c in HL if c[0] in (1, 2, 5)] + ['a-hllc-3-%d-%d-%d' % c for c in HL])], par=8, budget={'quick': 90, 'thorough': 780},
   bounds='1-D and 2-D (3-D thorough); densities and pressures in [0.1,10], velocities in [-3,3], face velocity in [-2,2]; face normals: every direction for consistency, zero-mass-flux and Galilean checks, both signs of every axis for exchange and supersonic checks in 2-D; gamma 1.4 or isothermal. Momentum/energy content of the zero-mass-flux option is checked for the non-isothermal solver'),
 'R02': dict(runs=[dict(harness='riemann', srcs=['RiemannSolver.cpp'], args=['rot-1', 'rot-2', 'rot-3', 'sample-53', 'sample-14', 'star-53', 'star-14', 'exflux-1-0', 'exflux-1-1', 'a-exflux-2-0', 'a-exflux-2-1'], qms={'quick': 1200, 'thorough': 15000}, wall={'quick': 25, 'thorough': 250}, cover=['rotated', 'behind-shock', 'outside-shock', 'in-fan', 'star-behind-fan', 'outside-fan']),
   dict(harness='riemann', flags=['-DANYSTAR'], srcs=[], args=['any-1-0', 'any-1-1', 'any-2-0', 'any-2-1', 'a-any-3-0', 'a-any-3-1'], cover=['any-star']),
   dict(harness='riemann', srcs=['RiemannSolver.cpp'], tier='thorough', args=['exflux-2-0', 'exflux-2-1', 'a-exflux-3-0', 'a-exflux-3-1'])], par=8, budget={'quick': 90, 'thorough': 780},
   bounds='rotations in 1-3 dimensions for every direction; sampling for densities and pressures in [0.1,10], star pressure in [0.01,30], star velocity in [-3,3], sampling speed in [-10,10], gamma 5/3 and 1.4; the iteration for the star region only for the paths that end within the run time (identical states, contacts, few iterations)'),
 'R03': dict(runs=[dict(harness='riemann', args=['visc-1', 'visc-2', 'visc-3'], srcs=['RiemannSolver.cpp'])], par=8, bounds='1-3 dimensions, viscosities in [0,2], velocities in [-3,3], gradients in [-2,2], densities and pressures in [0.1,10]'),
 'R04': dict(runs=[dict(harness='limiters', args=['%s-%d-%d-%d' % (l, d, e, n) for l in ('tvd', 'scalar', 'springel') for d, n in ((1, 0), (1, 1), (1, 2), (2, 1)) for e in (0, 1)] + ['gizmo-1-1-1', 'gizmo-1-1-2', 'gizmo-2-1-1', 'gizmo-1-1-0', 'gizmo-2-1-0', 'simple-1-0-0', 'simple-2-0-0', 'simple-3-0-0'], wall={'quick': 25, 'thorough': 200}, cover=['limited', 'simple', 'same-direction']),
   dict(harness='limiters', tier='thorough', args=['%s-%d-%d-%d' % (l, d, e, n) for l in ('tvd', 'scalar', 'springel') for d, n in ((1, 3), (2, 2), (3, 1)) for e in (0, 1)])], par=8, bounds='1-3 dimensions (3 thorough), 0-2 neighbours (3 thorough), primitive values in [-3,3] (densities and pressures positive), slopes in [-3,3], offsets up to the kernel extent'),
 'E01': dict(runs=[dict(harness='eos', args=['%d-%s' % (d, k) for d in (1, 2, 3) for k in ('adiabatic', 'isothermal', 'polytropic', 'barotropic', 'barotropic2', 'locally', 'disc', 'ion', 'mc') if d == 3 or k in ('locally', 'disc')], srcs=['AdiabaticEOS.cpp', 'IsothermalEOS.cpp', 'PolytropicEOS.cpp', 'BarotropicEOS.cpp', 'Barotropic2EOS.cpp', 'LocallyIsothermal.cpp', 'DiscLocallyIsothermal.cpp', 'IonisingRadiationEOS.cpp', 'MCRadiationEOS.cpp', 'Parameters.cpp', 'SimUnits.cpp', 'Exception.cpp'], cover=['adiabatic', 'isothermal', 'polytropic', 'barotropic', 'below', 'above', 'locally', 'disc', 'ionising', 'mcradiation'])], par=8, bounds='1-3 dimensions where they matter, densities and energies in [0.01,100], all exponents and mean weights symbolic in the stated ranges of the harness; pow is uninterpreted with monotonicity axioms'),
 'A01': dict(runs=[dict(harness='helpers', srcs=['RandomNumber.cpp', 'Exception.cpp'], args=['sort-1', 'sort-2', 'sort-3', 'sort-4', 'isort-4', 'invert-1', 'invert-2', 'invert-3', 'euler', 'unique-1-2', 'unique-2-3', 'unique-3-4', 'index', 'misc', 'level'], cover=['sorted', 'inverted', 'rotated', 'unique', 'rejected', 'closest', 'misc', 'level']),
   dict(harness='helpers', tier='thorough', args=['sort-5', 'unique-4-5', 'isort-5'])], par=8, bounds='arrays of 1-4 elements (5 thorough) of any value, ids 1-4, every 1x1, 2x2 and 3x3 matrix with entries in [-3,3] and non-vanishing determinant, Euler angles in [-7,7]'),
 'A02': dict(runs=[dict(harness='helpers', srcs=['RandomNumber.cpp', 'Exception.cpp'], args=['rng'], cover=['state', 'injective', 'seed', 'range', 'gauss', 'system', 'boxmuller'])], par=8, bounds='every 64-bit generator state (two words), every seed; every u in (0,1) for the Gaussian transform'),
 'B02': dict(runs=[dict(harness='helpers', srcs=['RandomNumber.cpp', 'Exception.cpp'], args=['nearest-1', 'nearest-2', 'box-1', 'box-2', 'names'], cover=['nearest', 'separate', 'overlapping', 'fraction', 'inbox', 'boundary-kind', 'names']), dict(harness='helpers', srcs=['RandomNumber.cpp', 'Exception.cpp'], args=['nearest-3', 'box-3'], tier='thorough')], par=8, bounds='1-2 dimensions (3 thorough), every box size in [0.1,10] and every combination of boundary kinds'),
 'U01': dict(runs=[dict(harness='units', srcs=['SimUnits.cpp', 'Parameters.cpp', 'Exception.cpp'], args=['scales', 'conv', 'nodim', 'labels'], cover=['scaled', 'converted', 'dimensionless', 'labels'])], par=4, bounds='every value in [-1e6,1e6] for symbolic scales in [1e-6,1e6]; every pair of length and mass unit, with every unit of every derived quantity and with and without separate input units (mega- and electron units B, Q, Jcur, eV excluded)'),
 'G02': dict(runs=[dict(harness='units', srcs=['SimUnits.cpp', 'Parameters.cpp', 'Exception.cpp'], args=['pot-1', 'pot-2', 'pot-3'], cover=['vertical', 'plummer', 'null'])], par=4, bounds='1-3 dimensions, positions and velocities in [-4,4], Plummer mass [0.1,10] and radius [0.1,3], uniform field [-5,5]; the Plummer potential is documented as twice the potential (energies count it by half)'),
 'N01': dict(runs=[dict(harness='nbody', srcs=NB, args=['direct-%d-%d' % (d, w) for d in (1, 2, 3) for w in (2, 4)] + ['startup-%d-%d' % (d, w) for d in (1, 2, 3) for w in (2, 4)] + ['snap6-2-4', 'snap6-3-4'] + ['soft2-%d-%d' % (d, w) for d in (1, 3) for w in range(5)] + ['gas-%d-%d' % (d, w) for d in (1, 3) for w in (0, 1, 2, 4)], cover=['direct', 'startup', 'snap6', 'softened', 'beyond', 'softjerk', 'gas']),
   dict(harness='nbody', srcs=NB, tier='thorough', args=['soft2-2-%d' % w for w in range(5)] + ['soft3-%d-%d' % (d, w) for d in (1, 2, 3) for w in (0, 2)] + ['gas-2-%d' % w for w in range(5)])], par=8, bounds='1-3 dimensions, 2-4 stars, masses in [0.1,10], separations from 0.1 to 8, velocities in [-3,3]; every N-body integrator class with its own kernels'),
 'N02': dict(runs=[dict(harness='nbody', srcs=NB, args=['step-%d-%d' % (d, w) for d in (1, 3) for w in range(5)] + ['tstep-%d-%d' % (d, w) for d in (1, 3) for w in range(5)], cover=['corrected', 'ended', 'continues', 'timestep'])], par=8, bounds="1 and 3 dimensions, polynomial trajectories of the scheme's order with coefficients in [-3,3], timesteps in [0.001,0.1]"),
 'H01': dict(runs=[dict(harness='sph', srcs=SPH, args=['gpair-%d-%d-%d-%d' % (d, f, v, c) for d in (1, 2, 3) for f in (0, 1) for v, c in ((0, 0), (1, 1), (2, 2), (3, 0)) if d < 3 or v != 2] + ['gpairq-1-0-1-1', 'gpairq-1-1-1-1'] + ['smpair-%d-0-%d-%d' % (d, v, c) for d in (1, 2, 3) for v, c in ((0, 0), (1, 1), (1, 2)) if d < 3 or c < 2], wall={'quick': 45}, cover=['approaching', 'receding', 'outside', 'smpair']),
   dict(harness='sph', srcs=SPH, tier='thorough', args=['gpair-3-0-2-2', 'gpair-3-1-2-2', 'smpair-3-0-1-2'])], par=8, bounds='1-3 dimensions, pairs of particles, M4 kernel (quintic 1-D), with and without viscosity and conductivity, smoothing lengths 0.3-2, separations up to 3 per axis, states in [0.1,10]'),
 'H02': dict(runs=[dict(harness='sph', srcs=SPH, args=['dissip-%d-%d-%d-%d' % (d, f, v, c) for d in (1, 2, 3) for f in (0, 1) for v, c in ((1, 0), (2, 0), (3, 0), (0, 1)) if d < 3 or c == 1] + ['smdissip-%d-0-%d-%d' % (d, v, c) for d in (1, 2, 3) for v, c in ((1, 0), (0, 1)) if d < 3 or c == 1], cover=['approaching', 'receding', 'expanding', 'compressing']),
   dict(harness='sph', srcs=SPH, tier='thorough', args=['dissip-3-%d-%d-0' % (f, v) for f in (0, 1) for v in (1, 2, 3)] + ['smdissip-3-0-1-0'])], par=8, bounds='1-3 dimensions, pairs of particles, M4 kernel, monotone and Morris-Monaghan/Cullen-Dehnen switches, states in [0.1,10]'),
 'H03': dict(runs=[dict(harness='sph', srcs=SPH, args=['hm4-1-%d-0-0-1' % f for f in (0, 1)] + ['hm4-2-0-0-0-1', 'hm4-3-0-0-0-1'] + ['hm4-%d-%d-0-0-%d' % (d, f, nn) for d, nn in ((1, 1), (1, 2), (2, 1), (3, 1)) for f in (16, 18, 20, 24)], wall={'quick': 22, 'thorough': 200}, cover=['exact', 'converged']),
   dict(harness='mfv', srcs=MFV, args=['mfh-%d-%d-%d' % c for c in ((1, 16, 1), (2, 16, 1), (3, 16, 1), (1, 0, 1), (1, 4, 1), (2, 0, 1), (3, 0, 1), (1, 2, 1))], wall={'quick': 22, 'thorough': 200}, cover=['exact'])], par=8, bounds='1-2 neighbours, M4 kernel, 1-3 dimensions, starting h 0.3-3, neighbour-list limit 0.3-3; the exact start proves the fixed point, the general start is explored path by path (number of iterations) until the run time ends'),
 'H04': dict(runs=[dict(harness='sph', srcs=SPH, args=['grav-%d' % d for d in (1, 2, 3)] + ['gravq-%d' % d for d in (1, 2, 3)] + ['star-%d' % d for d in (1, 2, 3)], cover=['beyond', 'within', 'star']),
   dict(harness='mfv', srcs=MFV, args=['mgrav-%d' % d for d in (1, 2, 3)])], par=8, bounds='1-3 dimensions, pairs, M4 and quintic kernels, separations above 0.1, masses 0.1-10'),
 'M01': dict(runs=[dict(harness='mfv', srcs=MFVS, flags=['-DSTUBFLUX'], args=['%s-%d-%d-0-%d' % (k, d, f, b) for k in ('muscl', 'rk') for d in (1, 2, 3) for f, b in ((0, 4), (1, 4), (0, 8), (1, 9), (0, 11), (0, 7)) if d < 3 and (k, d, f, b & 8) != ('rk', 2, 0, 0) or d == 3 and b > 7 and (k == 'rk' or b == 11)] + ['%s-%d-%d' % (k, d, f) for k in ('rest', 'rkrest') for d in (1, 2, 3) for f in (0, 1)] + ['musclz-1-0', 'rkz-3-0'], wall={'quick': 25}, cover=['flux', 'rest']),
   dict(harness='mfv', srcs=MFVS, flags=['-DSTUBFLUX'], tier='thorough', args=['%s-%d-%d-0-%d' % (k, d, f, b) for k in ('muscl', 'rk') for d in (1, 2) for f in (0, 1) for b in (0, 1, 3)] + ['%s-%d-0' % (k, d) for k in ('musclz', 'rkz') for d in (2, 3)] + ['%s-3-%d-0-%d' % (k, f, b) for k in ('muscl', 'rk') for f, b in ((0, 4), (1, 4), (0, 7), (0, 8))] + ['rk-2-0-0-4', 'rk-2-0-0-7']),
   dict(harness='mfv', srcs=MFV, args=['hllcf-1-0', 'hllcf-1-4', 'hllcf-2-0'], wall={'quick': 20, 'thorough': 250}, cover=['hllc-flux', 'outflow'])], par=8, bounds='1-3 dimensions, pairs; every combination of symbolic states, gradients and accelerations over two fixed geometries, and of symbolic geometry, B matrices and smoothing lengths over fixed states (both symbolic in 1-D thorough); an arbitrary positive kernel and a stand-in for the exact Riemann solver with the properties R01/R02 establish; the real HLLC solver with unit gradients'),
 'M02': dict(runs=[dict(harness='mfv', srcs=MFV, args=['conv-%d' % d for d in (1, 2, 3)] + ['step-%d-%d' % (d, f) for d in (1, 3) for f in (0, 1, 2, 8)], cover=['convert', 'ended', 'mid-step'])], par=8, bounds='1-3 dimensions, one particle, four substeps, accelerations in [-1,1], timesteps 0.001-0.01, fluxes and cooling in [-0.1,0.1]'),
 'M03': dict(runs=[dict(harness='mfv', srcs=MFVS, flags=['-DSTUBFLUX'], args=['linear-1-0-1', 'linear-1-0-2', 'linear-1-2-2', 'linear-2-0-2', 'linear-2-2-2', 'linear-2-0-3', 'linear-3-0-3'], cover=['matrix-gradient'])], par=8, bounds='1-3 dimensions, 1-3 neighbours anywhere within 2 per axis with arbitrary positive weights, every linear field with slopes in [-1,1]'),
 'T01': dict(runs=[dict(harness='tstep', srcs=SIM, flags=['-DBLOCK'], args=['sync-2-1-1-2-0', 'sync-2-1-2-2-2', 'sync-2-1-1-3-1', 'sync-2-0-1-3-0', 'sync-3-1-1-3-0', 'mid-2-1-1-3-0', 'mid-2-1-2-2-8', 'mid-2-1-1-3-12', 'mid-2-1-1-3-1', 'mid-2-1-1-4-0'], cover=['rebuilt', 'finer', 'coarser', 'same', 'shortened', 'in-progress', 'star-ends', 'hierarchy-deepened', 'hierarchy-shrunk']),
   dict(harness='tstep', tier='thorough', srcs=SIM, flags=['-DBLOCK'], args=['sync-2-2-2-3-0', 'sync-3-2-1-3-2', 'mid-3-1-1-3-0', 'mid-2-2-1-3-8', 'mid-2-1-2-3-12', 'mid-2-0-1-5-0', 'mid-3-1-2-2-10'])], par=8,
   bounds='2-3 gas particles and 0-2 stars, 2-4 levels (5 thorough), integration_step 1 and 2; one recomputation from every aligned configuration (all levels, all integer times, shortened steps, neighbour levels) and every set of criteria within 2^(levels+1) of the longest; global and single gas timesteps, dead particles',
   assumptions=['the criteria themselves (Timestep of the hydro and N-body integrators) are arbitrary positive numbers here; they are decided by T02', 'sink-neighbour level limits (create_sinks) are outside', 'configurations mid-hierarchy are the invariant of this property itself (an inductive step)']),
 'T02': dict(runs=[dict(harness='tstep', srcs=SIM, flags=['-DBLOCK'], args=['global-2-1-1-1-0', 'global-2-1-2-1-0', 'global-3-2-2-1-2', 'global-2-0-1-1-2', 'global-0-2-2-1-0'], cover=['global', 'not-due']),
   dict(harness='tstep', srcs=TST, args=['crit-%d-0-%d' % (d, o) for d, o in ((1, 1), (2, 0), (3, 1), (1, 3), (2, 5), (3, 8), (1, 9))], cover=['criterion']), dict(harness='tree', srcs=TREE, args=['signal-kd-2-3-1-0', 'signal-oct-2-3-1-0', 'signal-kd-1-3-1-0', 'signal-bf-2-3-1-0', 'signal-kd-2-4-2-0'], cover=['searched']), dict(harness='tree', srcs=TREE, tier='thorough', args=['signal-kd-3-4-1-0', 'signal-kd-2-6-2-0', 'signal-kd-2-6-3-0', 'signal-kd-2-5-1-0', 'signal-oct-2-6-2-0'], cover=['searched']), dict(harness='mfv', srcs=MFV, args=['mcrit-%d-%d-%d' % c for c in ((1, 0, 0), (2, 8, 2), (3, 0, 0), (3, 8, 0), (1, 0, 3), (1, 0, 1))], cover=['criterion'])], par=8, bounds='global step: 0-3 gas particles and 0-2 stars with any criteria in [0.01,10], integration_step 1 and 2, dead particles; hydro criteria: one particle in 1-3 dimensions, every state in the stated ranges, with and without hydro forces, viscosity, sinks, energy integration'),
 'T03': dict(runs=[dict(harness='tstep', srcs=TST, args=['motion-%d-%d-%d' % (d, k, o) for d in (1, 2, 3) for k in (0, 1) for o in (0, 1, 3)], cover=['ended', 'mid-step'])], par=8, bounds='1-3 dimensions, steps of 1-16 base steps and every intermediate time, any state, acceleration and step length; leapfrog KDK and DKD (the finite-volume integrator is decided by M02)'),
 'T04': dict(runs=[dict(harness='tstep', srcs=TST, args=['limit-1-%d-%d' % (k, l) for k in (0, 1) for l in (2, 3)], cover=['shortened', 'waiting', 'untouched']), dict(harness='mfv', srcs=MFV, args=['mlimit-1-0-2', 'mlimit-1-0-3', 'mlimit-3-0-2', 'mlimit-1-2-2'], cover=['shortened', 'waiting', 'untouched'])], par=8, bounds='one particle, up to 4 levels, every integer time, start, level and neighbour level, ratio 1 and 2, integration_step 1 (KDK, finite volume) and 2 (DKD)'),
 'O02': dict(runs=[dict(harness='sim', srcs=SIM + ['NbodySystemTree.cpp'], flags=['-DP_O02'], args=['diag-%d-%d' % c for c in ((1, 2 + 4 + 16 + 32), (2, 2 + 4 + 16 + 32 + 64), (3, 2 + 4 + 16 + 32 + 64), (3, 3 + 16 + 128), (2, 8 + 64), (3, 1 + 4), (1, 3 + 8 + 16 + 128), (3, 2 + 8 + 32 + 128))], cover=['diagnostics', 'frame'])], par=8, bounds='1-3 dimensions, 2-3 gas particles (gas, dust, dead) and 0-2 stars (inside a sub-system or free) with symbolic masses, positions, velocities, energies, potentials and accelerations'),
 'O03': dict(runs=[dict(harness='sim', srcs=SIM + ['NbodySystemTree.cpp'], flags=['-DP_O03'], args=['schedule-1-%d' % o for o in (0, 4, 8, 24, 25)], cover=['one-snapshot', 'several-snapshots', 'no-snapshot', 'step-limit', 'end-time'])], par=8, bounds='up to 5 main-loop steps of symbolic length with symbolic snapshot interval, first snapshot time, end time, step limits and restart frequency; the physics of a step is a stand-in that only advances the clock'),
 'B01': dict(runs=[dict(harness='sim', srcs=SIM + ['Integration.cpp'], flags=['-DP_B01'], args=['bound-1-0', 'bound-2-%d' % (5 + 16 * 10), 'bound-2-%d' % (14 + 16 * 0), 'bound-2-%d' % (8 + 16 * 5), 'bound-3-%d' % (5 + 16 * 5), 'bound-3-%d' % (0 + 16 * 10 + 256 * 3)], cover=['inside', 'open', 'periodic', 'mirror']), dict(harness='mfv', srcs=MFV + ['Integration.cpp'], args=['mirror-%d-%d' % c for c in ((1, 0), (1, 2), (2, 0), (2, 2), (3, 0))], cover=['mirrored', 'wrapped'])], par=8, bounds='one gas particle and one star in 1-3 dimensions, every position within one box length of the box, all states symbolic, one boundary combination per run (open, periodic, mirror, wall on either side); mirror and periodic images of the finite-volume particles likewise'),
 'N04': dict(runs=[dict(harness='sim', srcs=SIM, flags=['-DP_N04'], args=['table-1-%d' % k for k in (0, 1, 2, 3, 4)], cover=['empty', 'below', 'between', 'above'])], par=8, bounds='tables of 0-4 rows with increasing symbolic masses and outputs, one star of any mass in [0.05,100] and one exactly on any row'),
 'Q01': dict(runs=[dict(harness='tree', srcs=TREE, args=['build-%s-%d-%d-%d-%d' % c for c in (('kd', 1, 3, 1, 1), ('kd', 2, 4, 1, 64 + 512 + 2048), ('kd', 3, 3, 1, 64 + 4), ('kd', 1, 3, 1, 2), ('kd', 2, 5, 2, 8 + 32), ('kd', 1, 3, 1, 16), ('kd', 2, 3, 1, 256), ('kd', 3, 5, 1, 128 + 32 + 1024), ('oct', 1, 4, 1, 512), ('oct', 2, 4, 1, 64 + 512 + 2048), ('oct', 3, 3, 1, 64 + 4), ('oct', 1, 3, 1, 2), ('oct', 2, 4, 2, 8 + 32), ('oct', 1, 3, 1, 16), ('oct', 2, 3, 1, 256), ('oct', 3, 4, 1, 128 + 32 + 1024), ('bf', 2, 3, 1, 64 + 512 + 8 + 32), ('bf', 3, 3, 1, 64 + 4), ('bf', 1, 3, 1, 256), ('bf', 2, 3, 1, 16 + 128 + 1024))], cover=['verified', 'quadrupole', 'dead', 'moved', 'hmax', 'active']), dict(harness='tree', srcs=TREE, tier='thorough', args=['build-kd-1-4-1-1', 'build-kd-3-4-2-68', 'build-kd-2-4-2-256', 'build-kd-2-3-1-2', 'build-oct-2-3-1-2'])], par=8, bounds='3-5 particles in 1-3 dimensions around fixed base positions: orderings, leaf membership and cells for particles moved freely along one axis (or by +-0.04 everywhere), every smoothing length in [0.05,0.7], every velocity in [-1,1]; leaf sizes 1 and 2; dead, moved, inactive and massless particles; k-d, oct and brute-force trees'),
 'Q02': dict(runs=[dict(harness='tree', srcs=TREE, args=['gather-kd-2-3-1-1', 'gather-oct-2-3-1-8', 'gather-bf-2-3-1-0', 'gather-kd-2-5-2-8', 'cells-kd-2-3-1-4', 'cells-kd-2-3-1-1', 'cells-kd-1-3-1-4', 'cells-kd-1-3-1-1', 'cells-oct-2-3-1-17', 'cells-bf-2-3-1-1', 'cells-kd-2-4-2-9', 'images-kd-1-3-1-33', 'images-kd-2-3-1-33', 'images-kd-2-3-1-417', 'images-kd-2-3-1-161', 'images-kd-2-3-1-97', 'images-oct-2-3-1-65', 'gravity-kd-2-3-1-1', 'gravity-oct-2-4-1-1', 'gravity-kd-2-4-1-9', 'gravity-kd-2-4-2-17', 'gravity-bf-2-3-1-17', 'star-kd-2-4-1-8', 'star-oct-2-4-1-0', 'star-kd-2-4-1-16'], cover=['in-range', 'out-of-range', 'overflow', 'interacts', 'searched', 'image', 'multipole', 'near', 'direct']), dict(harness='tree', srcs=TREE, tier='thorough', args=['cells-kd-2-3-1-5', 'cells-oct-2-3-1-5', 'cells-bf-2-3-1-5', 'cells-kd-3-4-1-1', 'gather-kd-3-4-1-1', 'gather-oct-3-4-1-0', 'images-oct-2-3-1-33', 'images-kd-3-3-1-33', 'gravity-kd-3-4-1-1', 'gravity-oct-3-4-1-9', 'star-kd-3-4-1-8'])], par=8, bounds='3-5 particles in 1-3 dimensions, one of them anywhere along an axis or with any smoothing length in [0.05,0.45], searches of any radius in [0.1,1.2] and any position on a line; open, periodic and mirror boundaries; opening angle 0.7, monopole; k-d, oct and brute-force trees; stars at any position along an axis'),
 'Q03': dict(runs=[dict(harness='multi', srcs=SPH, args=['%s-%d-%d' % (f, d, q) for f in ('direct', 'fast') for d in (1, 2, 3) for q in (0, 1)], cover=['summed', 'none', 'fast'])], par=8, bounds='1-3 dimensions, 0-2 cells 3-5 away with any moments (mass 0.1-10, quadrupole components -2..2), any target position within 1 and offset from the cell centre within 0.5 (a boundary-type particle must be left alone); moments themselves are decided by Q01'),
}
SINK = ['Sinks.cpp'] + SPH
GHO = ['Ghosts.cpp', 'HydroTree.cpp']
PROPS.update({
 'S01': dict(runs=[dict(harness='sinks', srcs=SINK, args=['accrete-%d-%d-%d-%d' % c for c in ((1, 2, 1, 0), (2, 2, 1, 2), (3, 2, 1, 0), (2, 3, 2, 8), (3, 3, 2, 8 + 32), (3, 2, 2, 32), (2, 2, 1, 4), (1, 1, 1, 1), (2, 2, 1, 1 + 8), (3, 2, 1, 1 + 8), (2, 2, 2, 9))] + ['shared-1', 'shared-3'], cover=['shared', 'swallowed', 'spared', 'partly', 'waits']), dict(harness='sinks', srcs=SINK, args=['mfv-%d' % d for d in (1, 2, 3)], cover=['accreted'])], par=8, bounds='1-3 dimensions; 1-3 gas particles (dead ones included) and 1-2 sinks, also overlapping, with plain and smooth accretion, due and not due sinks, fixed and symbolic sink radius (0.1-1.25); positions numeric or shifted symbolically by 0.05, all velocities, masses, time steps and accelerations symbolic; neighbour search is a stand-in that finds exactly the particles in range and first reports a too small list; meshless: one accretion from one particle with all values symbolic'),
 'S02': dict(runs=[dict(harness='sinks', srcs=SINK, args=['form-%d-%d-%d-%d' % c for c in ((1, 2, 0, 0), (2, 2, 1, 8), (3, 2, 1, 64), (2, 3, 0, 2), (3, 2, 1, 2 + 8), (2, 2, 0, 4), (2, 2, 1, 128), (3, 3, 0, 2 + 128), (1, 2, 1, 2))], cover=['formed', 'several-formed', 'none-formed', 'overlaps', 'about-to-meet', 'inside-hill-sphere', 'limit'])], par=8, bounds='1-3 dimensions; 2-3 gas particles, 0-1 sinks already there, one search; all three sink radius modes; densities, potentials, smoothing lengths, masses, velocities, accelerations symbolic, positions numeric (or shifted symbolically); limit on the number of sinks on or off; same stand-in neighbour search'),
 'B03': dict(runs=[dict(harness='ghosts', srcs=GHO + ['Hydrodynamics.cpp', 'GradhSphTree.cpp'] + TREE, args=['ghost-1-2-%d' % (1 + 64), 'ghost-1-2-%d' % (1 + 192 + 2), 'ghost-1-1-%d' % (128 + 8), 'ghost-2-1-%d' % (64 + 256 + 2), 'ghost-2-1-%d' % (64 + 768 + 2), 'ghost-2-2-%d' % (192 + 256 + 4 + 16), 'ghost-3-1-%d' % (64 + 512 + 3072 + 2 + 8), 'ghost-2-1-%d' % (512 + 1)], cover=['reaches', 'corner', 'mirror-copy', 'periodic-copy', 'no-ghost']), dict(harness='ghosts', flags=['-DMFVG'], srcs=GHO + ['Hydrodynamics.cpp', 'MeshlessFVTree.cpp'] + MFV + ['Tree.cpp', 'KDTree.cpp', 'OctTree.cpp', 'BruteForceTree.cpp'], args=['ghost-1-2-%d' % (1 + 64 + 2), 'ghost-2-1-%d' % (64 + 768 + 1 + 2), 'copy-1', 'copy-2', 'copy-3'], cover=['reflected', 'corner'])], par=8, bounds='1-3 dimensions; 1-2 particles (one dead in one run) in a box with any combination used of open, periodic, one-sided and two-sided mirror edges; x of the first particle, its smoothing length (or numeric), ghost lifetime and velocities symbolic; KD- and oct-trees with one particle per leaf; SPH and meshless particles with all their state symbolic; one construction and one copy after every value has changed; reflection alone in every direction'),
 'G01': dict(runs=[dict(harness='ewald', srcs=['Ewald.cpp', 'CodeTiming.cpp', 'Parameters.cpp', 'SimUnits.cpp', 'Exception.cpp'], args=['sym-7-1-0', 'sym-1-1-1', 'sym-6-1-0', 'cont-7-1-0', 'cont-4-1-1', 'cont-3-1-2', 'wrap-7-1-1', 'wrap-5-1-2', 'far-1-1-1', 'far-4-1-2', 'far-3-1-0', 'far-5-1-2', 'far-6-1-0', 'edge-2-1-1', 'edge-3-1-0', 'edge-5-1-1', 'edge-6-1-0', 'split-7-1-0', 'split-1-1-1', 'split-3-1-2', 'split-5-1-0', 'perm-7-1-0', 'perm-1-1-1', 'perm-5-2-0', 'perm-3-2-0'], cover=['symmetry', 'continuity', 'wrapped', 'far', 'edge', 'split', 'axes']), dict(harness='ewald', tier='thorough', srcs=['Ewald.cpp', 'CodeTiming.cpp', 'Parameters.cpp', 'SimUnits.cpp', 'Exception.cpp'], args=['sym-7-1-%d' % k for k in (1, 2)] + ['sym-%d-1-%d' % (m, k) for m in (2, 3, 4, 5) for k in (0, 1, 2)] + ['cont-%d-1-%d' % (m, k) for m in (1, 2, 5, 6, 7) for k in (1, 2)] + ['sym-7-1-0-4-1', 'cont-7-1-2-4-1', 'wrap-7-1-0-4-1', 'wrap-2-1-1', 'wrap-1-1-0', 'wrap-6-1-2', 'far-2-1-0', 'edge-1-1-1', 'edge-4-1-0', 'edge-1-1-0', 'edge-3-1-2', 'split-2-1-1', 'split-4-1-0', 'split-6-1-0', 'split-7-1-1-6', 'split-1-1-0-6', 'perm-7-1-1', 'perm-1-1-0', 'perm-5-3-1', 'perm-6-3-1', 'perm-7-1-0-6'])], par=8, bounds='all seven combinations of periodic axes (a choice of them in the quick tier), box sides 1-6, table of 4 (thorough: 6) points per half box, series cut at 3-4 terms and 40 integration intervals; one component of the separation symbolic over the whole range of the table (thorough: all three), the others numeric; the table itself is computed by the constructor from numeric boxes; far range 2.3-2.9 box lengths; naming of the axes changed by cyclic permutations where two axes are periodic (others change the grid) and by every permutation otherwise'),
 'D01': dict(runs=[dict(harness='dust', srcs=['Dust.cpp', 'Hydrodynamics.cpp'] + GHO + ['GradhSphTree.cpp'] + TREE, args=['law-1-0', 'law-1-1', 'law-1-2', 'law-1-3', 'full-1-1-0', 'full-1-1-2', 'damp-1-1', 'full-2-2-64', 'full-3-0-0', 'full-2-0-4', 'full-1-2-130', 'test-1-1-0', 'test-2-2-4', 'test-1-0-8', 'full-1-0-32'], cover=['law', 'exchange', 'matched', 'test-particle', 'two-neighbours', 'a-dead-neighbour', 'damped']), dict(harness='dust', flags=['-DMFVG'], srcs=['Dust.cpp', 'Hydrodynamics.cpp'] + GHO + ['MeshlessFVTree.cpp'] + MFV + ['Tree.cpp', 'KDTree.cpp', 'OctTree.cpp', 'BruteForceTree.cpp'], args=['full-1-1-0', 'full-1-1-2', 'damp-1-1', 'full-2-2-64', 'full-3-0-0', 'full-2-0-4', 'test-1-1-0', 'test-2-2-4', 'test-1-0-8', 'full-1-0-32'], cover=['exchange', 'matched', 'test-particle', 'two-neighbours', 'a-dead-neighbour', 'damped'])], par=8, bounds='1-3 dimensions; one gas and one dust particle, or two gas and one dust (one gas particle dead in one run), at fixed separations with fixed smoothing lengths (h_fac 0.5 for test particles, 1.2 otherwise), open or periodic box; velocities, both accelerations, fluxes, sound speeds, masses and densities (one run), stopping rate (two runs) and dilution symbolic; fixed, density, Epstein and LP2012 laws (stopping time), the first three in the forces; SPH (KDK and DKD) and meshless particles; one call per state', assumptions=['the LP2012 law with test particles is refused by an assertion (zero dust density) and not claimed']),
 'F01': dict(runs=[dict(harness='supernova', srcs=['Supernova.cpp', 'Hydrodynamics.cpp', 'Ic.cpp'] + TST, args=['inject-1-0', 'inject-2-0', 'inject-3-8', 'inject-1-16', 'inject-2-16', 'inject-2-%d' % (16 + 1), 'inject-2-%d' % (16 + 2), 'inject-2-%d' % (16 + 5), 'inject-3-32', 'inject-2-64'], cover=['swept-up', 'outside', 'injected', 'kept']), dict(harness='supernova', flags=['-DMFVG'], srcs=['Supernova.cpp', 'Hydrodynamics.cpp', 'Ic.cpp', 'Integration.cpp'] + MFV, args=['inject-1-16', 'inject-2-16', 'inject-3-16'], cover=['kept', 'swept-up']), dict(harness='supernova', flags=['-DDRIVER'], srcs=['Hydrodynamics.cpp'] + TST, args=['silcc-1-0', 'silcc-2-0', 'silcc-3-0', 'silcc-3-1', 'sedov-1-0', 'sedov-3-0', 'sedov-1-1', 'sedov-3-1'], cover=['explodes', 'waits', 'all-done'])], par=8, bounds='1-3 dimensions; 2-3 gas particles of the mean mass (one dead in one run), one in mid-step and one at its end, with or without a periodic, corner or mirror ghost; 0-2 injected particles; injected energy, mass, ratio, radius, positions along one axis, velocities, energies and everything remembered from the beginning of the step symbolic; SPH (leapfrog KDK) and meshless conserved variables; tables of 2 rows announcing 1-3, missing file, 4 calls at symbolic times; single and random Sedov drivers over 3 calls', assumptions=['the neighbour search is a stand-in that returns every live particle and ghost inside the radius', 'the sphere is smaller than half the box, so no particle is swept up twice']),
 'P01': dict(runs=[dict(harness='params', srcs=[], args=['line-3-0', 'line-8-1', 'line-8-2', 'line-6-3', 'line-8-4', 'line-8-5', 'lines-0', 'lines-1', 'get-0'] + ['file-%d' % j for j in range(5)], cover=['comment-or-blank', 'not-a-setting', 'unknown-name', 'integer-set', 'float-set', 'string-set', 'read-back', 'several-lines', 'raise']), dict(harness='params', srcs=[], tier='thorough', args=['line-4-0', 'line-7-3'], wall={'thorough': 400})], par=8, bounds='lines of 3 arbitrary characters (9-126) and lines of 6-8 characters with up to 5 arbitrary ones around a name, an equals sign or a colon; six parameters of the three types whose names are prefixes of each other; integers and plain decimals (exponents not modelled); files of several lines; recording and reading back of the whole parameter set with 4 integers, 4 floats and one string of it symbolic, GetParameter into SetParameter', assumptions=['streams and the string class are stand-ins: strings keep symbolic characters, a printed number loses what its precision does not show (a difference below 12 digits counts as exact)', 'blanks inside a name or a value are outside the property (the code removes them)']),
})
