#!/usr/bin/env python3
# generates /verif/properties.jsonl from the table below (kept as code only for readability)
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=m, where=', '.join(files)) for m in mech], **({"state": list(state)} if state else {}))))

prop("C01", "Coordinate transformations are mutually consistent",
 "Converting a position, a position with velocity, a gradient or a second derivative of a function between any two supported coordinate systems "
 "(Cartesian, cylindrical, spherical, prolate spheroidal) agrees with calculus: conversions back and forth restore the input, Jacobians equal the derivatives of the transformation, "
 "speed and squared angular momentum are preserved, and gradients/Hessians obey the chain rule. Rotations given by Euler angles are proper orthogonal, "
 "apply identically to positions, velocities, gradients and Hessians, and composing a rotation with its reverse is the identity. "
 "On the polar axis and at the origin every result is either finite and the correct limit or documented as undefined - never silently a wrong number.",
 ["inputs"], "all points of phase space including the axis, the equatorial plane, the origin, extreme magnitudes, and all Euler angles and focal distances",
 "tests check a few hand-picked points and one function; the guarantee is over every point, every pair of systems and every degenerate locus",
 ["src/coord.h", "src/coord.cpp", "src/math_geometry.cpp"],
 ["explicit conversion templates toPos/toPosVel/toPosDeriv/toPosCar with degenerate branches", "Orientation class holding a 3x3 rotation matrix", "evalAndConvert two-step chain rule"])

prop("C02", "Forces and force derivatives are the exact derivatives of the potential",
 "For every potential model (elementary, triaxial, expansion, modified, composite, time-dependent) the reported acceleration is minus the gradient of the reported potential and the reported "
 "second derivatives are the derivatives of the acceleration, at every point where they exist. Requesting any subset of outputs, in any coordinate system, point by point or in a batch, gives the same values. "
 "Values stay finite and continuous at the origin (for non-singular models), on symmetry axes and planes, across internal grid boundaries, and at very small and large radii.",
 ["inputs", "configurations"], "all model types and parameter values, all points and times, all combinations of requested outputs",
 "tests sample a fixed list of models at a fixed list of points; breakage limited to one branch (a special slope, an octant, one harmonic, one output combination) escapes",
 ["src/potential_base.h", "src/potential_analytic.cpp", "src/potential_dehnen.cpp", "src/potential_multipole.cpp", "src/potential_cylspline.cpp", "src/potential_disk.cpp",
  "src/potential_ferrers.cpp", "src/potential_king.cpp", "src/potential_perfect_ellipsoid.cpp", "src/potential_composite.cpp", "src/potential_spheroid.cpp", "src/interface_python.cpp"],
 ["each class implements evalCar/evalCyl/evalSph with optional outputs", "coordinate conversion through chain rule in potential_base.h"])

prop("C03", "Density, mass, projection and potential are linked by Poisson's equation",
 "For every model the density equals the divergence of the force over -4 pi G; the enclosed mass equals the volume integral of the density and is a non-decreasing function of radius tending to the total mass; "
 "the far field tends to -G M / r. The surface density and projected potential/force/derivatives equal line-of-sight integrals of their three-dimensional counterparts for any viewing angles. "
 "Derived quantities (circular-orbit radius and period, maximum radius, peri/apocentre, principal axes) satisfy their defining equations.",
 ["inputs", "configurations"], "all density/potential models, radii, projection points and viewing angles",
 "tests compare a handful of models at a few radii with loose thresholds; the relations must hold for all parameters and directions",
 ["src/potential_base.cpp", "src/potential_utils.cpp", "src/potential_spheroid.cpp", "src/potential_disk.cpp", "src/potential_king.cpp"],
 ["default density from the Laplacian", "numerical volume integration over scaled coordinates", "root finding on dPhi/dr"])

prop("C04", "Named models implement their documented formulae and parameters",
 "Every named density and potential model evaluates to the closed-form expression given in the reference documentation for all admissible parameters, including axis ratios, special slopes and alternative normalisations "
 "(total mass, density or surface density). Parameter names and values are case-insensitive, aliases are equivalent, defaults are as documented; unknown parameters, inadmissible values and contradictory combinations are rejected with an error.",
 ["inputs", "configurations"], "all model names, all parameter combinations inside and outside the admissible range",
 "tests use one parameter set per model and almost never an invalid one",
 ["src/potential_factory.cpp", "src/potential_spheroid.cpp", "src/potential_disk.cpp", "src/potential_analytic.cpp", "src/potential_dehnen.cpp", "src/potential_king.cpp", "src/potential_ferrers.cpp", "src/potential_perfect_ellipsoid.cpp"],
 ["parseParam / ModelParams", "factory functions creating models", "closed-form density functions"])

prop("C05", "Potential and density expansions reproduce their source and declared symmetry",
 "A Multipole, BasisSet, CylSpline, DensitySphericalHarmonic or DensityAzimuthalHarmonic expansion built from a density, a potential or particles reproduces the potential, force, density and mass of the source to an accuracy that improves as the order and grid are refined, including outside of the grid. "
 "It obeys exactly the symmetry it was given and retains every harmonic (even and odd, positive and negative m) that the source contains. Building it from a source that is itself such an expansion of no higher order reproduces it to rounding or interpolation error.",
 ["inputs", "configurations"], "all expansion types, sources, symmetry types, orders and grids, all evaluation points",
 "tests build several expansions with fixed parameters and mostly triaxial symmetry",
 ["src/potential_multipole.cpp", "src/potential_cylspline.cpp", "src/math_sphharm.cpp", "src/potential_factory.cpp", "src/math_spline.cpp"],
 ["computeDensityCoefs/computePotentialCoefs", "log-scaled quintic splines with power-law extrapolation", "spherical-harmonic index bookkeeping by symmetry"])

prop("C06", "Modifiers, composition and time dependence act as defined",
 "A model shifted, rotated, tilted or scaled (by constants or by time-dependent tables) is at every point and time the original model evaluated in the transformed coordinates with correctly transformed vectors and tensors. "
 "A composite equals the sum of its components for every output, regardless of grouping and order, and its symmetry never exceeds what all components and modifiers share. "
 "Time-evolving potentials equal the tabulated ones at the tabulated times, follow the selected interpolation in between, and stay constant or extrapolate as documented outside.",
 ["inputs", "configurations"], "all combinations and nestings of modifiers, components, times inside, between and outside the tabulated ones",
 "tests exercise a few fixed nestings at few times",
 ["src/potential_composite.cpp", "src/potential_composite.h", "src/potential_factory.cpp", "src/potential_analytic.cpp"],
 ["Shifted/Tilted/Rotating/Scaled wrappers", "Composite/CompositeDensity", "Evolving", "KeplerBinary", "UniformAcceleration"])

prop("C07", "Saved models, snapshots and configuration survive a round trip",
 "Any expansion of a density or potential (every type, symmetry and order, alone or within composites, in any system of units) exported to a file and read back is the same function. "
 "An N-body snapshot written in any supported format and read back has the same particles, and reading ignores comments and rejects malformed content with an error. "
 "Configuration entries, numbers and time tables keep their values through parsing, and writing never loses precision beyond the documented number of digits.",
 ["inputs", "histories"], "all exportable models, snapshot formats, unit systems and file contents",
 "tests round-trip a couple of files with default parameters",
 ["src/potential_factory.cpp", "src/particles_io.cpp", "src/utils_config.cpp", "src/utils.cpp", "py/nemofile.py", "src/interface_nemo.cpp"],
 ["writePotential/writeDensity and readPotential", "IOSnapshotText/IOSnapshotNemo", "KeyValueMap/ConfigFile"])

prop("C08", "Orbit integration follows the equations of motion and conserves integrals",
 "Every integrated orbit satisfies Newton's equations in the given (static, rotating or time-dependent) potential: energy, Jacobi integral and angular momentum are conserved within tolerance where the symmetry demands, reversal returns to the start, and all integrators agree. "
 "Output samples appear at exactly the requested, equally spaced times, start from the given state, and a longer run or a denser output never changes the trajectory; interpolated output agrees with direct integration. "
 "Deviation vectors are the derivative of the flow with respect to initial conditions (symplectic, unit determinant), and Lyapunov indicators separate regular from chaotic motion.",
 ["inputs", "configurations"], "all potentials, initial conditions, times (positive, negative, zero), output modes, pattern speeds, integrators and accuracies",
 "tests integrate a few orbits with one setting and compare with stored thresholds",
 ["src/orbit.cpp", "src/orbit.h", "src/orbit_variational.cpp", "src/math_ode.cpp", "src/interface_python.cpp"],
 ["dop853/hermite/leapfrog solvers with dense output", "RuntimeTrajectory sampling", "RuntimeVariational"])

prop("C09", "Actions, angles and frequencies are canonical and invariant along orbits",
 "Actions are non-negative (radial, vertical), the azimuthal action equals L_z, and actions stay constant along orbits - exactly for spherical and Stackel potentials, approximately for the general axisymmetric finder. "
 "Angles advance linearly in time at the reported frequencies, frequencies are derivatives of the Hamiltonian by actions, and mapping from actions and angles to position and velocity is inverse to finding them. "
 "All ways of obtaining them (stand-alone routine, finder object, interpolated finder, batch, each subset of outputs) agree, and unbound or invalid points give a defined result instead of a wrong number.",
 ["inputs", "configurations"], "all bound phase-space points (circular, radial, planar, polar, near separatrix) in all spherical and axisymmetric potentials",
 "tests follow a few orbits in a few potentials",
 ["src/actions_spherical.cpp", "src/actions_staeckel.cpp", "src/actions_isochrone.cpp", "src/actions_torus.cpp", "src/actions_factory.cpp", "src/actions_focal_distance_finder.cpp", "src/torus/Torus.cc"],
 ["quadratures over scaled variables between turning points", "Staeckel fudge with local focal distance", "interpolation tables", "Torus fitting"])

prop("C10", "Distribution functions are non-negative, normalised and differentiable",
 "Every distribution function is non-negative and finite for admissible actions, its integral over action space times (2 pi)^3 equals the reported total mass, and reported derivatives are the true derivatives with respect to actions. "
 "Values follow the documented expressions, composites are sums of their components, and invalid parameters are rejected. "
 "A quasi-spherical DF built from a density in a potential reproduces that density and anisotropy.",
 ["inputs", "configurations"], "all DF families, parameters and actions including zero, negative azimuthal and very large values",
 "tests evaluate one instance of each family",
 ["src/df_base.cpp", "src/df_halo.cpp", "src/df_disk.cpp", "src/df_spherical.cpp", "src/df_factory.cpp", "src/galaxymodel_spherical.cpp"],
 ["evalDeriv per family", "integration in scaled action space", "Eddington/Cuddeford-Osipkov-Merritt inversion"])

prop("C11", "Moments and projections of a galaxy model are integrals of its DF",
 "Density, mean velocity, second moments, projected density/moments, projected DF and velocity distributions computed for a galaxy model are all consistent with the same function f(J(x,v)): each equals the corresponding integral, projections agree with line-of-sight integrals of intrinsic ones in any orientation, and velocity distributions integrate to one and have matching moments. "
 "A selection function multiplies the DF, separate components add up to the total, and any combination of requested outputs gives the same numbers.",
 ["inputs", "configurations"], "all DFs and potentials, points, orientations, uncertainties (zero, finite, infinite), selection functions, output combinations",
 "tests evaluate one model at one or two points",
 ["src/galaxymodel_base.cpp", "src/galaxymodel_base.h", "src/galaxymodel_velocitysampler.cpp", "src/interface_python.cpp"],
 ["adaptive cubature over scaled velocity", "IntegrandNd hierarchy with per-component accumulation", "B-spline projection of VDF"])

prop("C12", "Random samples follow the requested distribution",
 "Samples drawn from a density, a distribution function, a galaxy model or a user function lie in its domain, carry total mass equal to the integral, and are distributed in proportion to the function, in position and (when requested) in velocity. "
 "The same seed gives the same sample irrespective of the number of threads, different seeds differ, and basic generators (uniform, normal, quasi-random, permutations, directions) have their stated distributions.",
 ["inputs", "configurations", "schedules"], "all sampled objects, sample sizes, seeds and thread counts",
 "tests only check one sample loosely",
 ["src/math_sample.cpp", "src/math_random.cpp", "src/galaxymodel_velocitysampler.cpp", "src/galaxymodel_base.cpp", "src/galaxymodel_jeans.cpp", "src/interface_python.cpp"],
 ["adaptive binary-cell rejection sampling", "xoroshiro/PRNG with per-thread state", "density-weighted coordinate scaling"])

prop("C13", "Splines and other approximants interpolate, differentiate and integrate exactly",
 "Every interpolator (linear, cubic, quintic, B-spline in 1d, 2d and 3d; log-scaled; regularised) passes through its data, has the promised continuity, derivatives and boundary/extrapolation behaviour, reproduces polynomials of its degree, and its integrals, convolutions, roots, extrema and inverse values agree with its own values. "
 "Penalised fits (smoothing spline, log-density spline) minimise their stated functional, respond to weights and smoothing as documented, and keep requested constraints; monotone regularisation never overshoots the data. "
 "Gauss-Hermite expansions and their moments are consistent with the function that they represent.",
 ["inputs", "configurations"], "all grids (non-uniform, minimal size, extreme scales), data, orders, query points in, on and outside the grid",
 "tests use fixed smooth functions on fixed grids",
 ["src/math_spline.cpp", "src/math_spline.h", "src/math_gausshermite.cpp", "src/math_specfunc.cpp", "src/interface_python.cpp"],
 ["piecewise polynomial coefficient storage", "band-matrix solves", "de Boor recursion", "penalised least squares"])

prop("C14", "Numerical kernels return what their contracts promise",
 "Root finders, minimisers, quadrature and cubature, polynomial solvers, linear algebra (dense, banded, sparse, decompositions), linear/quadratic optimisation, regression, special functions and ODE solvers return results that satisfy their defining equations within the requested tolerance. "
 "Geometry, sorting, interpolation-index, grid-generation and angle utilities satisfy their contracts for all arguments. "
 "Infeasible, degenerate or invalid inputs are reported as such (error or NaN), not answered with a plausible wrong number.",
 ["inputs"], "all functions, coefficients, matrices, intervals (finite, semi-infinite, infinite, reversed) and tolerances",
 "tests contain one or two examples per routine",
 ["src/math_core.cpp", "src/math_linalg.cpp", "src/math_optimization.cpp", "src/math_fit.cpp", "src/math_specfunc.cpp", "src/cubature.cpp", "src/math_ode.cpp", "src/math_geometry.cpp", "src/math_sphharm.cpp"],
 ["Brent/Halley root finding with coordinate scaling", "GSL/Eigen/GLPK wrappers", "adaptive cubature"])

prop("C15", "Results are independent of threads and free of data races",
 "Every parallel operation (batch evaluation, orbit integration, expansion construction, sampling, galaxy-model moments, target accumulation, interpolated action tables) gives the same result for any number of threads and any schedule, up to summation rounding, with no conflicting unsynchronised memory accesses. "
 "User-supplied Python functions called from parallel code never corrupt interpreter state, and an error or interrupt raised in any of them never terminates the process or goes unreported: it reaches the caller as an exception (inside integrals over a distribution function, as a printed message with that evaluation counted as zero), leaving the library usable. "
 "Calling read-only methods of shared objects concurrently from several threads is safe.",
 ["schedules", "inputs"], "all thread counts, loop schedules and interleavings of the parallel regions, and failing iterations in any position",
 "tests run a fixed thread count under one schedule and without a race detector",
 ["src/interface_python.cpp", "src/math_sample.cpp", "src/math_random.cpp", "src/orbit.cpp", "src/potential_multipole.cpp", "src/potential_cylspline.cpp", "src/potential_utils.cpp", "src/actions_spherical.cpp", "src/actions_staeckel.cpp", "src/galaxymodel_losvd.cpp", "src/galaxymodel_base.cpp", "src/galaxymodel_jeans.cpp"],
 ["omp parallel for with dynamic schedule", "exceptions caught per thread and rethrown", "PyGILState / release of the GIL"])

prop("C16", "No input makes the library crash or corrupt memory",
 "For arbitrary arguments of the public interface and arbitrary contents of input files, every call either returns a result or reports an error by an exception; it never crashes the process, reads or writes outside of allocated memory, uses freed memory, invokes undefined behaviour or runs without end. "
 "After a reported error all existing objects remain usable and unchanged. "
 "Objects keep alive everything that they depend on, reference counts of user objects balance, and repeated use does not leak memory.",
 ["inputs", "fault_sequences", "histories"], "all argument types, shapes, values (NaN, infinity, empty, huge), malformed files, and object-lifetime orders",
 "tests pass well-formed input and run uninstrumented",
 ["src/interface_python.cpp", "src/particles_io.cpp", "src/potential_factory.cpp", "src/utils_config.cpp", "src/utils.cpp", "src/potential_multipole.cpp", "src/math_spline.cpp", "src/math_linalg.cpp"],
 ["argument parsing in the Python module", "size and range checks throwing exceptions", "shared_ptr ownership"])

prop("C17", "Units and foreign-language interfaces preserve the physics",
 "Choosing any system of units changes only the scale of inputs and outputs: every dimensional result expressed in physical terms is the same in any unit system, and conversion factors are mutually consistent. "
 "The C and Fortran interfaces return the same numbers as the C++/Python ones for every exposed operation, with documented argument order and sign conventions. "
 "Wrapped user-defined functions see and return values in user units.",
 ["inputs", "configurations"], "all unit systems (length, mass, velocity, time combinations), all methods that accept or return dimensional quantities",
 "tests use at most two unit systems and few methods",
 ["src/interface_python.cpp", "src/units.h", "src/interface_c.cpp", "src/interface_fortran.cpp", "src/potential_factory.cpp"],
 ["ExternalUnits/InternalUnits conversion factors", "convertPos/convertVel helpers in the Python module"])

prop("C18", "Schwarzschild targets record orbits and densities consistently",
 "For every target type, the projection of a density, of a particle snapshot drawn from it and of orbits agree: totals equal the mass inside the grid, contributions are additive and proportional to mass and time, and the same phase-space distribution yields the same values independently of how it is supplied. "
 "Velocity-distribution data cubes are correctly rotated, symmetrised, convolved with the point-spread function and binned into apertures, with flux conserved. "
 "Orbit-weight optimisation returns non-negative weights that satisfy the constraints and minimise the stated objective.",
 ["inputs", "configurations"], "all target types, grids, apertures, orientations, symmetries, velocity bases, densities and orbits",
 "tests use a single geometry per target",
 ["src/galaxymodel_densitygrid.cpp", "src/galaxymodel_losvd.cpp", "src/galaxymodel_target.h", "src/math_optimization.cpp", "src/interface_python.cpp", "py/schwarzlib.py"],
 ["basis-function density grids (classic, harmonic)", "LOSVD B-spline datacube with PSF and aperture matrices", "GLPK linear / quadratic optimisation"])

prop("C19", "Equilibrium models are in equilibrium",
 "A self-consistent model's iterations keep the total potential equal to the sum of its components' potentials, with each component's density equal to the moment of its DF in the current potential, and converge to a state which further iterations leave unchanged. "
 "Jeans models (spherical, axisymmetric) satisfy the Jeans equations with the stated anisotropy, and isotropic spherical models satisfy the relation between density, distribution function, phase volume and velocity dispersion. "
 "Velocities assigned by each of the available methods have the corresponding dispersions.",
 ["inputs", "configurations"], "all component combinations (static, disk-like, spheroidal), densities, potentials, anisotropy and rotation parameters",
 "tests run one example for a few iterations",
 ["src/galaxymodel_selfconsistent.cpp", "src/galaxymodel_jeans.cpp", "src/galaxymodel_spherical.cpp", "src/galaxymodel_velocitysampler.cpp", "src/interface_python.cpp"],
 ["updateTotalPotential / doIteration", "JeansSphModel, JeansAxiModel", "PhaseVolume, makeEddingtonDF, SphericalModel"])

prop("C20", "Kinetic evolution conserves mass and energy and stays consistent",
 "The isotropic Fokker-Planck solver conserves mass and energy up to its declared sources and sinks, keeps the distribution function non-negative, the model in virial equilibrium and its potential equal to that of its own density, and each step obeys the multi-component Fokker-Planck equation with the standard diffusion coefficients; the result scales with the units of mass and length, depends only slightly on the discretisation and time step, lets heavier stars sink, forms the Bahcall-Wolf cusp around a black hole, and gives the black hole the declared fraction of the captured mass. "
 "The Monte Carlo stellar-dynamical code (Raga) without relaxation conserves the energy and angular momentum of every particle; captures exactly the particles whose pericentre falls within the capture radius of a single or of either component of a binary black hole, removing each once and adding the declared fraction of its mass to the hole that captured it; changes the binary's energy and angular momentum by the amount lost to the stars and its orbit according to gravitational-wave emission; perturbs energies and angular momenta at the rate of two-body relaxation theory; and recomputes the potential from all the remaining mass. "
 "Splitting an episode in two or restarting from a stored snapshot continues the same evolution.",
 ["inputs", "histories", "configurations"], "all initial models, multi-mass components, sinks, boundary conditions, time steps and absorbing boundaries",
 "no existing test runs these parts at all",
 ["src/galaxymodel_fokkerplanck.cpp", "src/raga_core.cpp", "src/raga_relaxation.cpp", "src/raga_losscone.cpp", "src/raga_binary.cpp", "src/raga_trajectory.cpp", "src/raga_potential.cpp", "src/galaxymodel_spherical.cpp"],
 ["Chang-Cooper / finite-element implicit scheme", "velocity perturbations from local diffusion coefficients"])

prop("C21", "Python helper routines for astronomy and shapes are correct and invertible",
 "Celestial, Galactic and Galactocentric coordinate conversions (positions, proper motions, line-of-sight velocities and their uncertainties) are exact inverses of each other and preserve physical velocity, and rotation matrices match the ones used inside the library. "
 "Projection and deprojection of ellipsoids (intrinsic shape, viewing angles, projected ellipse) are mutually inverse wherever defined. "
 "Grid, B-spline and Gauss-Hermite helpers agree with their compiled counterparts for scalar and array arguments.",
 ["inputs"], "all directions on the sky including the poles and the longitude branch cut, distances, velocities, axis ratios and viewing angles, scalar and array input",
 "tests compare a handful of points with stored numbers",
 ["py/pygama.py", "py/measureshape.py", "py/schwarzlib.py", "src/math_geometry.cpp"],
 ["explicit trigonometric formulae", "rotation matrices", "numpy implementations of B-splines and Gauss-Hermite series"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
