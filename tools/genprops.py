#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=hook)))
I = ["inputs"]

prop("K01", "SPH kernels are consistent, non-negative, compact functions",
 "For every smoothing kernel offered (M4, quintic, Gaussian) and every dimensionality, the kernel value is non-negative, non-increasing and exactly zero at and beyond the kernel range, the returned gradient is the derivative of the kernel, the smoothing-length derivative term equals -(ndim*w + s*dw/ds), and every variant taking the squared argument agrees with the plain one. Kernel and gradient are continuous across the breakpoints of their pieces, and the kernel's volume integral is one for the compact polynomial kernels.",
 I, "every kernel argument s >= 0 (a real number, not samples), 3 kernels x 3 dimensions",
 "The tests run a few simulations with one kernel; a wrong derivative or a gap at a breakpoint in one kernel/dimension only degrades accuracy and no test would fail.",
 ["src/Headers/SmoothingKernel.h", "src/Hydrodynamics/M4Kernel.cpp", "src/Hydrodynamics/QuinticKernel.cpp", "src/Hydrodynamics/GaussianKernel.cpp"],
 [("w0/w1/womega piecewise polynomials", "src/Headers/SmoothingKernel.h"), ("normalisation constants", "src/Hydrodynamics/*Kernel.cpp")],
 ["SmoothingKernel::w0,w1,womega and their _s2 forms"])

prop("K02", "Softened-gravity kernels derive from one potential",
 "For the kernels that support self-gravity (M4, quintic), the gravitational force kernel is minus the derivative of the potential kernel, satisfies Gauss's law for the three-dimensional density kernel, and equals the unsoftened Newtonian force and potential beyond the kernel range. The grad-h potential correction equals minus the smoothing-length derivative of the softened potential, and potential and force are continuous for every separation.",
 I, "every kernel argument s >= 0, both polynomial kernels",
 "Energy non-conservation from an inconsistent force/potential pair is small and gradual; the tests compare freefall/jeans runs at a loose tolerance with one kernel only.",
 ["src/Headers/SmoothingKernel.h"],
 [("wgrav/wpot/wzeta", "src/Headers/SmoothingKernel.h")], ["SmoothingKernel::wgrav,wpot,wzeta"])

prop("K03", "Tabulated kernels stay in their tables and match their kernel",
 "Looking up any tabulated kernel function at any non-negative finite argument never reads outside its table. Inside the range the value returned lies at a tabulated point of the analytic kernel no further than one table spacing from the requested argument, and beyond it the value is zero (density functions) or the Newtonian expression (gravity functions).",
 I, "every non-negative finite double s (rounding of the index computation included), kernels M4/quintic, every dimension",
 "An out-of-range index needs an argument within rounding distance of the kernel edge; tests never hit it and reads one past the end are silent.",
 ["src/Headers/SmoothingKernel.h", "src/Hydrodynamics/TabulatedKernel.cpp"],
 [("tableLookup", "src/Headers/SmoothingKernel.h"), ("initializeTable", "src/Headers/SmoothingKernel.h")], ["TabulatedKernel"])

prop("R01", "HLLC fluxes are consistent, conservative and frame-correct",
 "For two identical states the approximate Riemann flux equals the exact physical (Euler or isothermal) flux seen from the moving face, and for any two states swapping the states and reversing the face normal gives the opposite flux through the face, so what leaves one particle enters the other. Supersonic states give pure upwind fluxes, and with the zero-mass-flux option no mass crosses the face.",
 I, "all admissible states (density, pressure > 0, any velocity), any unit normal, any face velocity, 1-3 dimensions, gamma-law and isothermal",
 "adsod and soundwave tests exercise one-dimensional, weakly asymmetric states with tolerance; most wave-pattern branches and normals are never taken.",
 ["src/Headers/RiemannSolver.h"], [("HllcRiemannSolver::ComputeFluxes", "src/Headers/RiemannSolver.h")], ["ComputeFluxes"])

prop("R02", "Exact Riemann solver samples the right wave and rotates safely",
 "Given a star-region pressure and velocity, the exact solver returns the state on the correct side of each wave: undisturbed states outside the wave fan, states satisfying the shock jump or isentropic relations inside, and always positive density and pressure; exchanging left and right mirrors the result. The rotations into and out of the face frame are orthonormal and inverse to each other for every face direction.",
 I, "all admissible states and star values, every unit normal, 1-3 dimensions",
 "The Sod test visits a single left-rarefaction/right-shock pattern in one dimension.",
 ["src/Hydrodynamics/RiemannSolver.cpp", "src/Headers/RiemannSolver.h"],
 [("SampleExactSolution", "src/Hydrodynamics/RiemannSolver.cpp"), ("ComputeRotationMatrices", "src/Hydrodynamics/RiemannSolver.cpp")])

prop("R03", "Viscous fluxes are symmetric and vanish for rigid motion",
 "The physical-viscosity flux exchanged across a face is linear in the velocity gradients, does not change when the two sides are exchanged, and vanishes for uniform and rigidly rotating flow. Its momentum part is a symmetric stress, its bulk part acts only on the divergence, and no mass is carried.",
 I, "all velocity gradients, states and coefficients, 1-3 dimensions",
 "No test turns viscosity on.",
 ["src/Headers/RiemannSolver.h", "src/Hydrodynamics/RiemannSolver.cpp"], [("ViscousFlux::ComputeViscousFlux", "src/Headers/RiemannSolver.h")])

prop("R04", "Slope limiters never create new extrema",
 "With every slope limiter that promises it, the limited reconstruction of any quantity at the positions the limiter is responsible for stays within the minimum and maximum over the cell and its neighbours. A limiter only ever shrinks gradients: the limited slope is the original one multiplied by a factor between zero and one, a constant field stays constant, and the zero-slope limiter returns no slope.",
 I, "all particle values, gradients and neighbour positions up to the stated neighbour count, 1-2 dimensions",
 "Over-steep limiting only shows near shocks as small oscillations; tests check L1 errors.",
 ["src/Headers/SlopeLimiter.h"], [("TVDScalarLimiter, ScalarLimiter, Springel2009Limiter, GizmoLimiter, ZeroSlopeLimiter", "src/Headers/SlopeLimiter.h")])

prop("E01", "Equations of state agree with themselves",
 "For every equation of state, pressure, internal energy and temperature are tied by the ideal-gas relations, the squared sound speed equals gamma*(gamma-1)*u for energy-evolving gas and P/rho for isothermal-type gas, and computing the internal energy from the pressure inverts computing the pressure. Positive density and energy always give positive pressure and sound speed, and barotropic relations follow the documented temperature-density law including its limits.",
 I, "all positive densities, energies and admissible parameters, every equation of state",
 "Tests use isothermal and adiabatic gas at a few states; the barotropic, polytropic and locally isothermal laws are not exercised.",
 ["src/Headers/EOS.h", "src/Thermal/*EOS.cpp", "src/Thermal/LocallyIsothermal.cpp", "src/Thermal/DiscLocallyIsothermal.cpp"],
 [("EOS virtual functions", "src/Headers/EOS.h")])

prop("H01", "Pairwise SPH forces conserve momentum, angular momentum and energy",
 "For any two gas particles in the grad-h and Saitoh-Makino SPH schemes, the hydrodynamic forces they exert on each other are equal and opposite and act along the line joining them, and the work done by the forces plus the heating adds up to zero. This holds for every artificial viscosity and conductivity option.",
 I, "all pairs of particle states (any separation, velocities, masses, densities, smoothing lengths, pressures), 1-3 dimensions, all switches",
 "A conservation error that affects only some switch or some side of the pair is far below the tolerance of the run-based tests.",
 ["src/GradhSph/GradhSph.cpp", "src/SM2013/SM2012Sph.cpp"],
 [("ComputeSphHydroForces / ComputeSphHydroGravForces", "src/GradhSph/GradhSph.cpp")], ["particle a, dudt"])

prop("H02", "Artificial dissipation only heats and only acts on approach",
 "Artificial viscosity in SPH never cools: for approaching particles it adds non-negative heat to both and a repulsive force, and for receding particles it contributes nothing. Artificial conductivity moves heat from the hotter to the colder particle, and time-dependent viscosity grows only under compression and otherwise decays towards its minimum.",
 I, "all pairs of particle states and all viscosity/conductivity options",
 "Sign errors in rarely used options (Price or Wadsley conductivity, Morris-Monaghan switch with gravity) are never exercised by tests.",
 ["src/GradhSph/GradhSph.cpp"], [("dissipation block", "src/GradhSph/GradhSph.cpp")])

prop("H03", "Converged smoothing lengths satisfy the h-rho relation",
 "Whenever the smoothing-length iteration reports success, the returned density is the kernel sum over the neighbours, the smoothing length equals h_fac*(m/rho)^(1/ndim) to the requested tolerance (but not below the sink floor), and the correction factors are those of the grad-h formalism for that h. Otherwise it reports failure so that a larger neighbour list is fetched, never a stale value; a particle is marked as potential minimum exactly when no neighbour inside its kernel has a deeper potential.",
 I, "all neighbour configurations up to the stated count, all starting h",
 "Tests see well-sampled particle distributions where the first iteration already converges.",
 ["src/GradhSph/GradhSph.cpp", "src/MeshlessFV/MfvCommon.cpp", "src/SM2013/SM2012Sph.cpp"], [("ComputeH", "src/GradhSph/GradhSph.cpp")])

prop("H04", "Particle self-gravity is pairwise antisymmetric and Newtonian at range",
 "Gravitational accelerations computed between two gas particles (smoothed, direct, and combined with hydro forces) are equal and opposite after weighting by mass, point along the separation, and the potentials they add are symmetric. Beyond both kernels the pair feels exactly the Newtonian force and potential, and the smoothed, combined and direct routines agree there.",
 I, "all pairs of particle states and separations, grad-h SPH and meshless schemes, 1-3 dimensions",
 "Tests of freefall and jeans use symmetric configurations in which an asymmetric force cancels.",
 ["src/GradhSph/GradhSph.cpp", "src/MeshlessFV/MfvCommon.cpp"],
 [("ComputeSphGravForces, ComputeDirectGravForces, ComputeSmoothedGravForces", "src/GradhSph/GradhSph.cpp")])

prop("M01", "Meshless fluxes conserve mass, momentum and energy",
 "When the meshless finite-volume scheme exchanges fluxes between two particles, every conserved quantity gained by one is lost by the other, for the full step and for the instantaneous rate, with any slope limiter, Riemann solver and for static or moving particles. Two identical states at rest exchange no mass and no energy, and the face geometry is antisymmetric, so evaluating the pair from either side gives the same transfer.",
 I, "all pairs of particle states, 1-3 dimensions, all limiters and solvers within the stated bounds",
 "Tests run two meshless simulations with one solver and limiter at a tolerance.",
 ["src/MeshlessFV/MfvMuscl.cpp", "src/MeshlessFV/MfvRungeKutta.cpp", "src/MeshlessFV/MfvCommon.cpp"],
 [("ComputeGodunovFlux", "src/MeshlessFV/MfvMuscl.cpp")])

prop("M02", "Meshless primitive and conserved variables convert back and forth",
 "Converting a meshless particle's primitive variables to conserved ones and back returns the original mass, velocity, density and internal energy, and the end-of-step update adds exactly the accumulated fluxes. Mass, momentum and total energy removed by accretion are removed in proportion.",
 I, "all particle states with positive mass and volume, 1-3 dimensions",
 "Round-trip errors for unusual velocity/energy ratios are invisible in the tested runs.",
 ["src/Headers/FV.h", "src/MeshlessFV/MeshlessFV.cpp", "src/Hydrodynamics/FV.cpp", "src/MeshlessFV/MfvIntegration.cpp"],
 [("ConvertPrimitiveToConserved, ConvertConservedToPrimitive, UpdateArrayVariables", "src/Hydrodynamics/FV.cpp")])

prop("M03", "Meshless gradients are exact for linear fields",
 "Whenever the matrix gradient is used, the gradient that the meshless scheme assigns to each primitive variable of a particle is exact for a field that varies linearly in space, for any arrangement of neighbours. The maximum signal speed is at least the particle's own sound speed.",
 I, "all arrangements of the stated number of neighbours, all linear fields, 1-2 dimensions (3 with fixed geometry)",
 "Only a handful of regular lattices occur in the tests.",
 ["src/MeshlessFV/MfvCommon.cpp", "src/Headers/InlineFuncs.h"], [("ComputeGradients, InvertMatrix", "src/MeshlessFV/MfvCommon.cpp")])

prop("T01", "Block timesteps stay synchronised and bounded by every criterion",
 "After every recomputation of block timesteps, each particle and star sits on a level no higher than the maximum, its step is a power-of-two multiple of the smallest step that divides the current time, and is never longer than its own timestep criterion allows; the global time advances by the smallest step. A particle never moves to a coarser level at a time that is not a multiple of the coarser step, and the integer clock keeps the physical time elapsed since each particle's last step when levels are added or removed.",
 ["histories", "inputs"], "all timestep criteria, levels and integer times reachable within the stated bounds",
 "Tests run a few schedules; desynchronisation needs particular level changes at particular times.",
 ["src/Common/Simulation.cpp", "src/Headers/InlineFuncs.h", "src/Hydrodynamics/SphLeapfrogKDK.cpp"],
 [("ComputeBlockTimesteps, ComputeGlobalTimestep", "src/Common/Simulation.cpp"), ("ComputeTimestepLevel", "src/Headers/InlineFuncs.h")])

prop("T02", "A global timestep never exceeds any particle's criterion",
 "With global timesteps the step taken is no longer than the timestep criterion of any live gas particle or star, all of them are given that same step, and the Courant, acceleration and energy limits are each respected by the hydrodynamic criterion. Dead particles do not influence it.",
 I, "all particle states within the stated particle count",
 "Tests use setups in which one criterion dominates throughout.",
 ["src/Common/Simulation.cpp", "src/Hydrodynamics/SphIntegration.cpp", "src/MeshlessFV/MfvIntegration.cpp"],
 [("ComputeGlobalTimestep", "src/Common/Simulation.cpp"), ("Timestep", "src/Hydrodynamics/SphIntegration.cpp")])

prop("T03", "Hydro integrators are exact to their order and keep their schedule",
 "The kick-drift-kick gas integrator reproduces constant-acceleration motion exactly at every intermediate time and at the end of the step, for any step length; the drift-kick-drift one gives the exact velocity at every time and the exact position at the end of the step, drifting linearly in between. When the acceleration or heating rate has changed over the step, the kick-drift-kick step ends with the mean of the old and the new one. A particle is made active exactly when its forces are due (at the end of its own step, or half way through it for drift-kick-drift), only a particle that ends its step has its reference state reset to the current state and time, and it then takes the step announced for it.",
 ["inputs", "histories"], "all initial states, accelerations and step lengths; all integer step sizes within bounds",
 "A wrong coefficient reduces the order of convergence without failing any tolerance-based test.",
 ["src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/Hydrodynamics/SphLeapfrogDKD.cpp", "src/MeshlessFV/MfvIntegration.cpp"],
 [("AdvanceParticles, CorrectionTerms, EndTimestep", "src/Hydrodynamics/SphLeapfrogKDK.cpp")])

prop("T04", "Neighbouring particles' timesteps stay within the limiter's ratio",
 "The timestep limiter wakes a gas particle whose neighbour has moved to a much finer level: at the first time aligned with the coarsest level allowed next to that neighbour its step is cut short so that it ends there, unless it was already ending its step. A shortened step ends at a time aligned with its new level, its recorded length is the physical time it spans, transfers already computed for it are scaled to that length, and when it ends the particle is advanced with second-order accuracy in velocity. A particle whose neighbours are not much finer is left untouched.",
 ["histories", "inputs"], "all integer times, levels and neighbour levels within the stated bounds",
 "Requires particular level combinations at particular integer times.",
 ["src/Hydrodynamics/SphLeapfrogKDK.cpp", "src/Hydrodynamics/SphLeapfrogDKD.cpp", "src/MeshlessFV/MfvIntegration.cpp"], [("CheckTimesteps", "src/Hydrodynamics/SphLeapfrogKDK.cpp")])

prop("N01", "Star-star gravity obeys Newton's laws and its own time derivatives",
 "For any set of stars, direct and kernel-softened forces conserve momentum, the softened force equals the direct one beyond the softening range, the potential is symmetric, and each acceleration is the gradient of the potential. The jerk equals the time derivative of the acceleration along the stars' motion, and in the startup phase so do the second and third derivatives.",
 I, "all positions, velocities, masses and smoothing lengths of the stated number of stars, 1-3 dimensions",
 "A wrong jerk or derivative only lowers the integration order; the N-body tests have loose tolerances.",
 ["src/Nbody/Nbody.cpp", "src/Nbody/NbodyHermite4.cpp", "src/Nbody/NbodyHermite6TS.cpp", "src/Nbody/NbodyLeapfrogKDK.cpp"],
 [("CalculateDirectGravForces, CalculateDirectSmoothedGravForces, CalculateAllStartupQuantities", "src/Nbody")])

prop("N02", "N-body integrators are exact to their design order",
 "Each N-body integrator reproduces exactly any trajectory polynomial in time up to its design order (constant acceleration for the leapfrogs, linear acceleration and above for the Hermite schemes) over one step of any length, predictor and corrector included. Stars become active exactly at the end of their own step, and the end of the step stores the state from which the next one starts.",
 ["inputs", "histories"], "all initial states, polynomial coefficients and step lengths",
 "A wrong coefficient only lowers the convergence order.",
 ["src/Nbody/NbodyHermite4.cpp", "src/Nbody/NbodyHermite4TS.cpp", "src/Nbody/NbodyHermite6TS.cpp", "src/Nbody/NbodyLeapfrogKDK.cpp", "src/Nbody/NbodyLeapfrogDKD.cpp"],
 [("AdvanceParticles, CorrectionTerms, EndTimestep", "src/Nbody")])

prop("N03", "Sub-systems preserve their stars' mass, momentum and energy",
 "When stars are grouped into a sub-system, the system's mass, centre of mass and momentum are those of its stars, and perturber forces, internal integration and re-attachment of the members never shift the centre of mass away from the system's. Binary properties reported for two bound stars match two-body mechanics.",
 ["inputs", "histories"], "all states of the stated number of stars",
 "The tests use at most one isolated binary.",
 ["src/Nbody/NbodySystemTree.cpp", "src/Nbody/Nbody.cpp"], [("BuildSubSystems, FindBinarySystems, UpdateChildStars", "src/Nbody/NbodySystemTree.cpp")])

prop("N04", "Stellar properties interpolate the table monotonically",
 "The ionising output assigned to a star lies between those of the two table rows that bracket its mass, equals the row's value at a tabulated mass, and for masses outside the table is that of the nearest row. No table row outside the loaded table is ever read.",
 I, "all star masses and all tables of the stated size with increasing masses",
 "Tests never vary stellar masses across table boundaries.",
 ["src/Nbody/Nbody.cpp"], [("UpdateStellarProperties", "src/Nbody/Nbody.cpp")])

prop("S01", "Sink formation and accretion conserve mass, momentum and spin",
 "Creating a sink from a gas particle and accreting gas on to sinks conserve total mass, centre of mass, linear momentum and total angular momentum (orbital plus sink spin). No particle is accreted by more than one sink, accreted particles are removed, and none is left alive with zero or negative mass.",
 ["inputs", "histories"], "all particle and sink states within the stated counts, full and gradual accretion",
 "No stable test forms or feeds a sink.",
 ["src/Nbody/Sinks.cpp"], [("CreateNewSinkParticle, AccreteMassToSinks", "src/Nbody/Sinks.cpp")])

prop("S02", "Sinks form only from the densest eligible particle",
 "A sink is created only from a live gas particle at a potential minimum, above the density threshold, at the end of its step, and not overlapping or about to merge with an existing sink; among the eligible ones the densest is chosen. The search repeats until no eligible particle is left.",
 ["inputs"], "all particle and sink states within the stated counts",
 "No stable test forms a sink.",
 ["src/Nbody/Sinks.cpp"], [("SearchForNewSinkParticles", "src/Nbody/Sinks.cpp")])

prop("B01", "Boundary handling keeps particles in the box and physics unchanged",
 "After boundary handling a gas particle or star that left a periodic, mirror or wall boundary by less than one box length is back inside the box, with position shifted by exactly one box length (periodic) or reflected with its normal velocity and acceleration reversed (mirror, wall), consistently for current and start-of-step values. Particles inside the box and open boundaries are untouched.",
 I, "all positions within one box length of the box, all boundary combinations, 1-3 dimensions",
 "Tests use periodic boxes in which few particles cross, never mirrors with all combinations.",
 ["src/Common/Integration.cpp", "src/Nbody/Nbody.cpp", "src/Headers/DomainBox.h", "src/Hydrodynamics/SphIntegration.cpp"],
 [("CheckBoundaries", "src/Common/Integration.cpp")])

prop("B02", "Nearest periodic image and box geometry helpers are exact",
 "The nearest periodic separation differs from the true one by whole box lengths along periodic directions only and is never longer than half a box in them. Box overlap, containment and distance tests agree with their geometric definitions for every pair of boxes, and the fractional overlap is the overlap volume relative to the box and lies between zero and one.",
 I, "all boxes and separations within the box, 1-3 dimensions",
 "Tests never compare geometry predicates on touching, nested or degenerate boxes.",
 ["src/Headers/DomainBox.h", "src/Headers/InlineFuncs.h"], [("NearestPeriodicVector, BoxOverlap, FractionalBoxOverlap, ParticleInBox", "src/Headers")])

prop("B03", "Ghost particles are exact images of their originals",
 "Every periodic or mirror ghost carries the same mass, density, smoothing length and thermal state as its original, is displaced or reflected by exactly the boundary it belongs to (velocity reversed along the normal for mirrors), and refers back to its true original even for ghosts of ghosts. Every real particle whose kernel can reach across a boundary during the ghost lifetime has its ghost created.",
 I, "all particle states near any boundary, all boundary combinations, 1-2 dimensions",
 "A missing corner ghost or a wrong sign only perturbs a few edge particles.",
 ["src/Hydrodynamics/Ghosts.cpp", "src/Headers/Ghosts.h", "src/Headers/Particle.h", "src/Headers/GhostNeighbours.hpp"],
 [("CopyHydroDataToGhosts, GhostNeighbourFinder", "src/Hydrodynamics/Ghosts.cpp")])

prop("Q01", "Trees partition particles and bound them",
 "After building or restocking a tree, every live particle is in exactly one leaf, every cell's box contains its particles, its kernel box contains their kernels, and its mass, centre of mass, counts and maximum smoothing length are those of its particles; child cells make up their parent. This holds for both the binary and the octal tree.",
 I, "all particle positions, masses and smoothing lengths within the stated counts, 1-3 dimensions",
 "A tree that loses a particle in a degenerate configuration (equal coordinates) still passes smooth tests.",
 ["src/Tree/KDTree.cpp", "src/Tree/OctTree.cpp", "src/Headers/TreeCell.h"], [("BuildTree, StockTree", "src/Tree")])

prop("Q02", "Tree searches find every neighbour that brute force finds",
 "A neighbour search on either tree returns every live particle that a brute-force search finds within the search range (gather, or gather and scatter), never a dead one, and never overruns the caller's list but reports that it is too small. Applied to gravity, the cells and particles accepted cover all mass exactly once.",
 I, "all particle positions and search radii within the stated counts, 1-3 dimensions",
 "Missing a neighbour in a corner case changes densities by less than any test tolerance.",
 ["src/Tree/Tree.cpp", "src/Tree/KDTree.cpp", "src/Tree/OctTree.cpp", "src/Tree/BruteForceTree.cpp", "src/Headers/NeighbourManager.h"],
 [("ComputeGatherNeighbourList, ComputeNeighbourList, ComputeGravityInteractionList", "src/Tree/Tree.cpp")])

prop("Q03", "Cell gravity equals the truncated expansion of its particles",
 "The monopole and quadrupole acceleration and potential of a distant cell equal the mass, centre-of-mass and quadrupole moments of its particles substituted in the expansion; the quadrupole tensor is symmetric, trace-free and the sum over particles of the textbook expression. The fast multipole estimate agrees with the direct cell sum at the cell centre.",
 I, "all cells, positions and moments, 1-3 dimensions",
 "An error in one tensor component is hidden by the opening criterion in the tests.",
 ["src/Headers/TreeCell.h", "src/Tree/Tree.cpp", "src/Headers/InlineFuncs.h", "src/Headers/NeighbourSearch.h"], [("ComputeCellMonopoleForces, ComputeCellQuadrupoleForces, StockCellProperties", "src/Tree")])

prop("G01", "Periodic gravity corrections are odd in force and even in potential",
 "The Ewald correction of the force between two bodies reverses when their separation reverses while the potential correction does not change, in every component, and it is interpolated only from inside its table for every separation within the periodic cell. Along non-periodic directions beyond the table the analytic asymptotic form is used.",
 I, "all separations within half a box, all periodicity combinations",
 "No stable test enables periodic gravity away from a symmetric lattice.",
 ["src/Common/Ewald.cpp"], [("CalculatePeriodicCorrection", "src/Common/Ewald.cpp")])

prop("G02", "External potentials give the force and jerk of their potential",
 "For every external potential field, the acceleration added points down the field it defines and equals (up to the potential's documented sign and factor) its spatial gradient, and the jerk added equals the time derivative of that acceleration along the particle's motion. The null field adds nothing.",
 I, "all positions, velocities and field parameters, 1-3 dimensions",
 "No stable test uses an external potential.",
 ["src/Headers/ExternalPotential.h"], [("AddExternalPotential", "src/Headers/ExternalPotential.h")])

prop("D01", "Dust-gas drag conserves momentum and energy and only damps",
 "The drag exchanged between dust and gas particles is equal and opposite, its frictional loss appears as gas heating when heating is on, and it never increases or reverses the relative velocity over a step of any length, however stiff. Every drag law gives a positive stopping time and the test-particle limit leaves the gas untouched.",
 I, "all particle pairs, stopping times and step lengths, all drag laws, 1-3 dimensions",
 "The dust wave tests use one drag regime.",
 ["src/Common/Dust.cpp", "src/Headers/DragLaws.h"], [("DustInterpolant, DustSemiImplictForces, DragLaw", "src/Common/Dust.cpp")])

prop("F01", "Supernovae inject exactly the requested mass and energy, once",
 "A supernova event raises the number and mass of gas particles by exactly the injected whole particles, and the thermal energy added plus the radial kinetic energy given equals the energy requested, split in the requested ratio, with velocities pointing away from the explosion. Each scheduled supernova goes off exactly once, at or after its time, and none is looked up past the end of the schedule.",
 ["inputs", "histories"], "all particle states within the stated counts, all energies, ratios and schedules",
 "No stable test injects a supernova.",
 ["src/Feedback/Supernova.cpp", "src/Feedback/SupernovaDriver.cpp"], [("SupernovaInjection, Update", "src/Feedback")])

prop("U01", "Unit scaling round-trips and derived units are dimensionally right",
 "Converting any value to code units and back, through input, output, SI or cgs scales, returns the value, and the scale of every derived quantity (velocity, density, pressure, energy and so on) equals the product of base scales its dimension requires, with G equal to one in code units. Every supported unit name has the value in SI of its definition and unknown names are rejected.",
 ["inputs", "configurations"], "all values; all supported combinations of unit names; all base scales",
 "The tests run dimensionless problems; a wrong exponent in one derived unit is never seen.",
 ["src/Common/SimUnits.cpp", "src/Headers/SimUnits.h"], [("SetupUnits, SIUnit", "src/Common/SimUnits.cpp")])

prop("P01", "Parameter files are parsed faithfully and can be re-read",
 "Every 'description : name = value' line sets exactly the named parameter to exactly the given value and nothing else, whatever the amount of blank space, comments and blank lines; names are matched in full and unknown names change no parameter. Writing the parameters out and reading them back gives the same parameter values.",
 ["inputs", "configurations"], "all lines up to the stated length over the characters parameter files use; all parameter values",
 "Tests read a few well-formed files.",
 ["src/Common/Parameters.cpp"], [("ParseLine, SetParameter, RecordParametersToFile", "src/Common/Parameters.cpp")])

prop("O01", "Snapshots read back exactly what was written",
 "Writing a snapshot in any supported format and reading it back restores time, particle and star counts, every stored particle quantity (in the binary format bit for bit) and the sink properties that the format holds. Unit scaling applied on output is undone on input.",
 ["inputs"], "all particle and star values, stated particle counts, column / ASCII and unformatted SEREN formats, 1-3 dimensions",
 "Restart correctness for arbitrary values is not tested.",
 ["src/Common/SimulationIO.hpp", "src/Headers/BinaryIO.h", "src/Headers/formatted_output.h"], [("Read/Write snapshot routines", "src/Common/SimulationIO.hpp")])

prop("O02", "Conservation diagnostics are the sums they claim to be",
 "The reported totals of mass, momentum, angular momentum, kinetic, thermal and gravitational energy, and the reported centre of mass, equal the sums over live gas particles and stars, and moving to the centre-of-mass frame zeroes the centre of mass and the momentum without changing relative positions or velocities.",
 I, "all particle and star states within the stated counts, 1-3 dimensions",
 "A wrong diagnostic makes every conservation test meaningless and nothing checks it.",
 ["src/Common/SimAnalysis.hpp", "src/Common/Simulation.cpp"], [("CalculateDiagnostics, SetComFrame", "src/Common")])

prop("X01", "Sky pixelisation maps every direction and pixel consistently",
 "The sky pixelisation's ring and nested numberings are inverse bijections of each other over every pixel, and locating the pixel of a pixel's centre direction returns that pixel; no index leaves the valid range for any direction. Child pixels nest inside their parent when resolution doubles.",
 I, "every pixel number and direction at the stated resolutions",
 "No test calls it; index arithmetic errors only affect a few pixels.",
 ["src/Radiation/chealpix.c"], [("nest2ring, ring2nest, pix2vec, vec2pix", "src/Radiation/chealpix.c")])

prop("X02", "Opacity and cooling tables are read in range and monotonically",
 "Looking up density, temperature, energy or pressure in the opacity table never addresses a row or column outside the table for any value, returns the bracketing or nearest entries, and energy-pressure-temperature conversions through the table are consistent with each other. Radiative cooling moves the energy towards equilibrium and never past it.",
 I, "all lookups and all tables of the stated size",
 "No stable test uses the table.",
 ["src/Common/OpacityTable.cpp", "src/Thermal/RadwsEOS.cpp", "src/Hydrodynamics/EnergyRadws.cpp"], [("GetIDens, GetITemp, GetEnergyFromPressure", "src/Common/OpacityTable.cpp")])

prop("A01", "Sorting, matrix and helper algorithms are correct for every input",
 "The sorting helpers return a sorted permutation of their input with the accompanying ids carried along, matrix inversion returns the true inverse, rotation matrices are orthonormal with determinant one, the duplicate-identifier check accepts exactly the lists without duplicates, and index helpers return the position they promise. This holds for every input, ties and single elements included.",
 I, "all arrays up to the stated length, all invertible matrices up to 3x3, all angles",
 "Unit tests cover a handful of scaling helpers only.",
 ["src/Headers/InlineFuncs.h"], [("Heapsort, InsertionSort, InvertMatrix, EulerAngleMatrix, VerifyUniqueIds, getClosestIndex", "src/Headers/InlineFuncs.h")])

prop("A02", "Random numbers stay in range and reproduce from their seed",
 "The built-in generator yields floating-point values from zero up to one for every internal state, never reaches the absorbing all-zero state from a non-zero seed, is a one-to-one function of its state, and Gaussian deviates have the requested mean and width. Equal seeds give equal sequences.",
 ["inputs", "histories"], "every 64-bit generator state",
 "Tests draw a few numbers from one seed.",
 ["src/Headers/RandomNumber.h", "src/Common/RandomNumber.cpp"], [("XorshiftRand", "src/Headers/RandomNumber.h")])

prop("O03", "Output is scheduled at the right times without being missed",
 "Snapshots, restart snapshots and diagnostics are written when, and only when, their time or step count is due, successive snapshot times advance by the requested interval so that none is skipped or repeated, and a run stops at its end time or step limit and not before.",
 ["histories"], "all snapshot intervals, step sizes and step counts within bounds",
 "The tests only look at the final snapshot.",
 ["src/Common/Simulation.cpp"], [("Output, Run", "src/Common/Simulation.cpp")])

prop("C01", "Results do not depend on thread or process count",
 "A simulation produces the same physical result whatever the number of OpenMP threads or MPI processes used.",
 ["schedules"], "all thread interleavings and domain decompositions",
 "The tests run serially.",
 ["src/Mpi/MpiControl.cpp", "src/Tree/HydroTree.cpp"], [("OpenMP regions, MPI exchange", "src")])

prop("C02", "Full simulations reproduce analytic solutions",
 "Complete runs of the standard problems converge to the analytic solution at the scheme's order of accuracy.",
 I, "all resolutions and problem parameters",
 "Run at one resolution with one tolerance.",
 ["tests", "examples"], [("whole program", "src")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
