#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the table below)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("C01", "Conservative patch update changes exactly the right cells by the right amount",
     "Applying face fluxes to a patch changes the conserved variables of every cell inside the update region by exactly dt/dx times the flux through its lower face minus the flux through its upper face, for every component, direction, rank, patch shape and index origin, and writes nothing outside that region. "
     "The sequential, vectorised and threaded execution policies produce the same result. "
     "Hence on a periodic domain the total of every conserved quantity stays constant over any number of steps of any combination of supported flux method and direction order.",
     ["inputs", "configurations", "histories"],
     "all patch widths (including widths not divisible by the vector width and width 1), origins, strides, directions, ranks 1-3, dt, dx, flux data, execution policies; long periodic runs",
     "The stable tests only update 1-D patches of 1 and 8 cells with a single component; no 2-D/3-D patch, no strided sub-view, no remainder lanes beyond width 1 and no multi-step conservation is ever exercised.",
     ["src/HyperbolicPatchIntegrator.cpp", "include/fub/HyperbolicPatchIntegrator.hpp", "include/fub/StateRow.hpp", "include/fub/flux_method/FluxMethod.hpp", "include/fub/ForEach.hpp"],
     [("row-wise conservative update", "src/HyperbolicPatchIntegrator.cpp:UpdateConservatively"),
      ("flux computation over a strip of cells", "include/fub/flux_method/FluxMethod.hpp:ComputeNumericFluxes")],
     observe=["the conservative patch data before/after an update, including a guard zone", "sum of each conserved component after every step"])

prop("C02", "Scalar, vectorised and masked kernels compute the same result",
     "For every equation and flux method, computing fluxes, physical fluxes, stable time steps, conversions from conserved to complete states and state combinations through the cell-by-cell, the fixed-width vectorised and the patch-view entry points gives the same numbers up to rounding, for every admissible input and every number of cells (including those that are not a multiple of the vector width). "
     "Entry points a method declines to implement are outside of this statement. "
     "The masked (cut-cell) vectorised variants agree with the cell-by-cell result on every lane whose faces are open, whatever values the closed or covered lanes contain, and do not produce non-finite values on open lanes.",
     ["inputs", "configurations"],
     "all admissible states, directions, ranks, lanes, patch widths, masks of open/closed faces",
     "Existing tests never evaluate a flux method through more than one entry point; the lane-dependent remainder and mask branches need input combinations no test samples.",
     ["include/fub/flux_method/FluxMethod.hpp", "include/fub/flux_method/GodunovMethod.hpp", "include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/StateArray.hpp", "include/fub/StateRow.hpp", "include/fub/CompleteFromCons.hpp", "src/equations/perfect_gas/HllemMethod.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.hpp", "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp", "src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp", "src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp", "src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/IdealGasMix.cpp", "src/equations/ShallowWater.cpp"],
     [("twin scalar/array implementations", "src/equations/**/*.hpp"),
      ("remainder handling with partial loads and stores", "include/fub/StateRow.hpp:LoadN/StoreN")],
     observe=["fluxes and time steps returned by each entry point"])

prop("C03", "Numerical fluxes are consistent, keep uniform flow and respect upwinding",
     "Every flux method returns the physical flux when all its input cells hold the same admissible state, in every direction and rank, so uniform flow is preserved exactly up to rounding; physical fluxes, HLL-type fluxes and the upwind fluxes of the scalar equations equal their closed forms. "
     "When all signals move in one direction, upwind methods return the physical flux of the upwind side; contact discontinuities at rest are kept exactly by the contact-resolving methods. "
     "With the Larrouturou treatment, the flux of an auxiliary quantity (species, passive scalar, transverse momentum) equals the mass flux times the upwind value; the species fluxes of a reacting mixture add up to its mass flux.",
     ["inputs", "configurations"],
     "all admissible left/right/stencil states, directions, ranks 1-3, gas models, dt/dx ratios under the CFL condition",
     "No stable test evaluates any numerical flux against the physical flux; the supersonic, contact and multi-component branches are never reached.",
     ["include/fub/flux_method/GodunovMethod.hpp", "include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/flux_method/MusclHancockMethod2.hpp", "src/equations/perfect_gas/HllemMethod.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.hpp", "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp", "src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp", "src/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp", "src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/IdealGasMix.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/ShallowWater.cpp"],
     [("approximate Riemann solvers", "src/equations/perfect_gas/HllemMethod.hpp, include/fub/flux_method/HllMethod.hpp"),
      ("physical fluxes", "src/equations/*.cpp:Flux")],
     observe=["flux of each face vs closed-form physical flux"])

prop("C04", "The discrete dynamics have no preferred side or axis",
     "Mirroring a flow (swap cells and flip the normal momentum) negates the fluxes of all scalar quantities and keeps that of normal momentum; permuting coordinate axes together with velocity components permutes the fluxes in the same way; and a lower-dimensional problem embedded in a higher-dimensional solver gives the same numbers. "
     "This holds for every flux method, physical flux, wave-speed estimate and stable time step of every equation with scalar, vectorised and patch entry points.",
     ["inputs", "configurations"],
     "all admissible stencil states, directions, ranks 1-3, equations and flux methods",
     "The existing tests contain no 2-D or 3-D flux evaluation at all; a sign or index slip in one direction or one side goes unnoticed.",
     ["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/IdealGasMix.cpp", "src/equations/ShallowWater.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/perfect_gas/HllemMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp", "src/equations/perfect_gas/ExactRiemannSolver.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.hpp", "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp", "include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/GodunovMethod.hpp"],
     [("direction-indexed kernels", "src/equations/**")],
     observe=["fluxes of a problem and its mirrored / permuted / embedded image"])

prop("C05", "The reported stable time step covers the fastest signal of every face",
     "The time step reported for a patch never exceeds the cell width divided by the fastest signal speed that the flux method's own wave-speed estimate gives at any face of the patch, wherever that face lies, and equals the minimum over all faces; it is positive and finite for admissible moving states. "
     "It does not depend on the execution policy, on how the patch is split, or on the position of the fastest face.",
     ["inputs", "configurations"],
     "all patch widths and positions of the fastest face (including the last and remainder lanes), directions, ranks, gas models",
     "No stable test calls the time-step estimate; errors only show when the limiting face is at a specific position.",
     ["include/fub/flux_method/FluxMethod.hpp", "include/fub/flux_method/GodunovMethod.hpp", "include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/MusclHancockMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp", "src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp", "src/equations/perfect_gas/ExactRiemannSolver.hpp", "include/fub/HyperbolicMethod.hpp"],
     [("strip-wise minimum over faces", "include/fub/flux_method/FluxMethod.hpp:ComputeStableDt")],
     observe=["time step of random patches with the fastest face planted at every position"])

prop("C06", "Exact Riemann solutions satisfy the Euler jump conditions and are self-similar",
     "For every admissible pair of perfect-gas states (that does not create vacuum) the exact Riemann solver returns a state that satisfies, for its wave pattern, the Rankine-Hugoniot conditions across shocks, the isentropic relations across rarefactions and continuity of pressure and normal velocity across the contact, with density, energy and speed of sound belonging to one thermodynamic state. "
     "Transverse velocity and passive quantities are taken from the side the contact comes from, and the middle pressure and velocity agree with an independent solution of the pressure equation; the iteration that finds it converges to its tolerance or reports failure.",
     ["inputs"], "all left/right states over many decades of pressure and density ratio, Mach numbers of both signs, directions, ranks 1-3, heat-capacity ratios; scalar and vectorised; the linear and nonlinear model equations",
     "The only existing test prints a table without an assertion.",
     ["src/equations/perfect_gas/ExactRiemannSolver.hpp", "include/fub/equations/perfect_gas/ExactRiemannSolver.hpp", "src/equations/ShallowWater.cpp", "src/equations/Burgers.cpp", "src/equations/Advection.cpp", "include/fub/NewtonIteration.hpp"],
     [("iteration for the middle pressure and wave sampling", "src/equations/perfect_gas/ExactRiemannSolver.hpp")],
     observe=["state on the interface, middle pressure/velocity"])

prop("C07", "Perfect-gas states and conversions are thermodynamically consistent",
     "Completing a state from conserved variables, building one from density, velocity and pressure, and converting to primitive or kinetic variables and back are mutually inverse and leave density, momentum, energy and all species/scalars unchanged; pressure, speed of sound, temperature and internal energy obtained this way obey the ideal-gas relations of the configured gas. "
     "Rotations and reflections of states preserve every scalar and the length of momentum, are undone by their inverse, and isentropic-pressure changes keep entropy, composition and, below the stagnation pressure, total enthalpy.",
     ["inputs", "configurations"],
     "all admissible states, heat-capacity ratios, gas constants, reference Mach numbers, numbers of species and scalars, ranks 1-3, scalar and vectorised",
     "Existing tests construct a few states and load them; no conversion is inverted.",
     ["src/equations/PerfectGas.cpp", "include/fub/equations/PerfectGas.hpp", "src/equations/PerfectGasMix.cpp", "include/fub/equations/PerfectGasMix.hpp", "include/fub/equations/EulerEquation.hpp", "include/fub/CompleteFromCons.hpp", "include/fub/ext/Eigen.hpp"],
     [("conversions", "src/equations/PerfectGas.cpp, include/fub/equations/PerfectGasMix.hpp")],
     observe=["converted states"])

prop("C08", "Reacting-gas thermodynamics and reactions conserve and are history free",
     "Setting a reacting-gas state from any supported set of variables (temperature/pressure/composition, density/temperature, density/internal energy, density/enthalpy, an isentropic change of pressure, a composition string) and reading it back returns those variables with composition normalised and non-negative, and all derived quantities (pressure, enthalpy, energy, heat capacities, speed of sound, molar mass) obey the ideal-mixture relations for that state, regardless of which states the same object held before and of scalar or vectorised use. "
     "Advancing the reaction in a closed volume conserves mass, element composition and internal energy, keeps mass fractions non-negative up to solver tolerance, is additive in time up to the integrator's tolerance, leaves inert or frozen mixtures unchanged and leaves the object describing the final state; where the integrator cannot advance it reports so by an exception.",
     ["inputs", "histories"],
     "all compositions, temperatures and pressures in the mechanism's range; all sequences of set/read/advance operations on one object",
     "Three existing tests set one or two states each; histories of calls and reaction steps are not tested.",
     ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp", "src/equations/IdealGasMix.cpp", "include/fub/equations/IdealGasMix.hpp"],
     [("reactor object with cached thermodynamic state", "src/equations/ideal_gas_mix/FlameMasterReactor.cpp"),
      ("reaction mechanism", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp")],
     state=[("reactor state", "mass fractions, temperature, density and cached thermodynamic functions", "include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp")],
     observe=["reactor getters after random operation sequences"])

prop("C09", "First-order steps under the CFL limit keep states admissible and bounded",
     "Taking a first-order step of the exact or HLLE-type Riemann solvers with a time step within the CFL limit (the reported stable step for scalar equations, half of it for systems) keeps density and pressure (or water height) positive, keeps species and passive scalars between their neighbouring values, keeps the linear and nonlinear scalar equations within the range of the neighbouring values, and does not increase their total variation. "
     "This also holds over long histories of steps with alternating directions starting from any admissible data.",
     ["inputs", "histories", "configurations"],
     "all admissible initial data including strong jumps and near-vacuum on each flux method with this guarantee, ranks 1-2, directions",
     "No stable test advances a hyperbolic equation by a time step.",
     ["include/fub/flux_method/HllMethod.hpp", "include/fub/flux_method/GodunovMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp", "src/equations/perfect_gas/ExactRiemannSolver.hpp", "src/equations/perfect_gas/HllemMethod.hpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/ShallowWater.cpp", "src/HyperbolicPatchIntegrator.cpp"],
     [("wave-speed bounds plus CFL-limited explicit update", "include/fub/flux_method/*.hpp")],
     observe=["every cell after every step"])

prop("C10", "Slope-limited reconstruction is bounded, linear exact and second order",
     "Limited slopes never create new extrema: they vanish at local extrema, have the sign of both one-sided differences and are bounded as their limiter promises, for every limiter and choice of variables; limiting is symmetric in its two arguments and scales with its data. "
     "Reconstruction is exact for uniform data, advances a smooth profile with second-order accuracy in space and time, and gives the same face values in its scalar and vectorised forms.",
     ["inputs", "configurations"],
     "all stencils of admissible states, limiters, variable choices (conservative, primitive, characteristic), gas models, directions, dt/dx",
     "No stable test touches a limiter or a second-order method.",
     ["include/fub/flux_method/Gradient.hpp", "include/fub/flux_method/Reconstruct.hpp", "include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/flux_method/MusclHancockMethod2.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.hpp", "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp", "src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp", "src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp"],
     [("limiters", "include/fub/flux_method/Gradient.hpp, include/fub/flux_method/MusclHancockMethod.hpp"), ("half-step evolution", "include/fub/flux_method/Reconstruct.hpp")],
     observe=["slopes, reconstructed faces, errors under grid refinement"])

prop("C11", "Adaptive subcycling keeps levels in step and synchronises them correctly",
     "In one coarse step every refinement level is advanced over exactly the same time interval, each finer level in as many equal sub-steps as its refinement ratio demands, fine levels after ghost data of matching time exist, and coarse data under a fine level and coarse fluxes at its boundary are corrected exactly once, after the fine level has caught up. "
     "Time stamps and cycle counts of all levels agree at the end, the directional sweeps of a step each fill ghost cells, compute fluxes, update, complete and accumulate fluxes with the right time step, and the time step used never exceeds the smallest stable step over all levels weighted by refinement.",
     ["histories", "configurations", "inputs"],
     "all hierarchies of up to several levels, refinement ratios, split schemes, source-term splittings, initial and subsequent regrids",
     "No stable test runs a level integrator; the order of events in a recursive schedule is visible only in a trace.",
     ["include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp", "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp", "include/fub/solver/SolverFacade.hpp"],
     [("recursive level advance", "include/fub/solver/SubcycleFineFirstSolver.hpp:AdvanceLevel"), ("directional sweeps", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp")],
     state=[("time points and cycles", "per-level physical time and step count", "integrator context")],
     observe=["recorded trace of every context call with its arguments"])

prop("C12", "Operator splitting composes the right sub-steps in the right order",
     "Splitting methods call their sub-operators in the documented order with the documented fractions of the time step, each operator's fractions add up to exactly one full step, stop at the first failing operator and report its failure unchanged, and copies behave identically. "
     "Symmetric splittings are second-order accurate and first-order splitting is first order on non-commuting linear operators; composing more than two operators keeps this.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all time steps, numbers of operators and failing positions",
     "No stable test calls a splitting method.",
     ["src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp", "src/split_method/StrangSplittingLumped.cpp", "include/fub/split_method/SplittingMethod.hpp", "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp"],
     [("split advance", "src/split_method/*.cpp")], observe=["trace of operator calls"])

prop("C13", "The time loop reaches the end time exactly and recovers from rejected steps",
     "A run ends at the configured final time or after the configured number of cycles, its time is strictly increasing over accepted steps, no step exceeds the Courant-scaled stable time step or passes the final time or the next output time, each step is as large as these limits allow, and a simulation that is already finished takes no step. "
     "When a step is rejected because its time step was too large, the solution is restored to its state before the step and the step is retried with a time step within the reported bound, so the final state is the same as if the failed attempt had never happened; unrecoverable failures end the run without being silently counted as progress.",
     ["histories", "fault_sequences", "configurations"],
     "all final times, cycle limits, Courant numbers, stable-step histories and sequences of step rejections",
     "No stable test runs the time loop; rejection sequences need fault injection.",
     ["include/fub/RunSimulation.hpp", "src/RunSimulation.cpp", "include/fub/TimeStepError.hpp", "include/fub/solver/SubcycleFineFirstSolver.hpp"],
     [("main loop", "include/fub/RunSimulation.hpp:RunSimulation")], observe=["trace of every advance, output and log event"])

prop("C14", "Outputs fire exactly once at each scheduled time or cycle",
     "An output scheduled by time intervals fires exactly once at each multiple of an interval that the run reaches, an output scheduled by cycles fires exactly at each multiple of its frequency, once per step even if several schedules coincide, the time loop is always told of the earliest next output time, and no output fires otherwise (a schedule handed directly to the time loop is, besides, given the final state of the run). Frequencies and intervals that are not positive schedule nothing; a time stamp counts as a multiple of an interval if it is within 1.5e-12 of it. "
     "Groups of outputs behave like their members, and every output is due for the initial state, which is offered exactly once.",
     ["histories", "configurations", "inputs"],
     "all frequency/interval combinations, floating-point times near multiples, any number of grouped outputs, rejected steps",
     "No stable test uses an output class.",
     ["include/fub/output/OutputAtFrequencyOrInterval.hpp", "include/fub/output/MultipleOutputs.hpp", "include/fub/output/AsOutput.hpp", "include/fub/output/BasicOutput.hpp", "include/fub/output/OutputFactory.hpp", "include/fub/output/CounterOutput.hpp", "include/fub/RunSimulation.hpp"],
     [("schedule test", "include/fub/output/OutputAtFrequencyOrInterval.hpp")], observe=["times and cycles at which outputs fire"])

prop("C15", "Index boxes, rows and reflecting walls address exactly the intended cells",
     "Growing, shrinking, intersecting, shifting and projecting index boxes and enumerating their cells visits each cell of the exact set described once, in every rank and for empty boxes; walking views row by row pairs the matching cells of all of them; sub-views of patch data refer to the same cell values under the same indices. "
     "A reflecting wall fills every ghost cell with the mirror image of its interior cell with the wall-normal momentum reversed and changes no interior cell, so that a wall exchanges no mass or energy with the gas.",
     ["inputs", "configurations"],
     "all boxes (including empty, negative-origin), widths, directions, sides, ranks 1-3, wall normals",
     "Only two constructions of sub-spans are tested; no ghost fill and no box algebra is.",
     ["include/fub/PatchDataView.hpp", "include/fub/ForEach.hpp", "include/fub/StateRow.hpp", "include/fub/State.hpp", "src/boundary_condition/ReflectiveBoundary.cpp", "include/fub/boundary_condition/ReflectiveBoundary.hpp", "src/equations/PerfectGas.cpp", "src/equations/ShallowWater.cpp"],
     [("index boxes", "include/fub/PatchDataView.hpp"), ("mirror fill", "src/boundary_condition/ReflectiveBoundary.cpp")],
     observe=["visited index lists, ghost cells"])

prop("C16", "Multi-dimensional views map indices one-to-one onto their storage",
     "For every rank, every mix of compile-time and run-time extents and every layout (row-major, column-major, strided), element offsets are unique, lie in the reported required size and follow the layout's strides; conversions and comparisons of extents and mappings agree with element-wise comparison. "
     "Slicing by index, range or full dimension refers to exactly the elements of the original at the corresponding positions, also after repeated slicing, and one-dimensional spans give the same elements by iteration, indexing, first/last/sub-range and byte views.",
     ["inputs", "configurations"],
     "all ranks up to 4, extents including 0 and 1, layouts, slice combinations and nested slices",
     "Existing tests check a handful of fixed extents and slices.",
     ["include/fub/core/mdspan.hpp", "include/fub/core/mdarray.hpp", "include/fub/core/span.hpp", "include/fub/core/dynamic_extent.hpp"],
     [("layout mappings and subspan", "include/fub/core/mdspan.hpp")], observe=["addresses of elements"])

prop("C17", "Geometric shapes classify points correctly and transform rigidly",
     "The level-set value of each shape is negative on one side of its boundary, positive on the other and zero on it (which side is inside follows each shape's own convention), agreeing with an independent point-in-shape test, with magnitude equal to the distance where a shape promises a distance; unions, intersections by inversion, rotations and translations combine these signs as set operations and rigid motions do. "
     "Copies of shapes behave identically and evaluation has no side effects.",
     ["inputs"], "all points, random polygons (convex and not, both orientations), cones, half spaces, tubes, nested combinations",
     "The one polygon test checks a fixed unit shape.",
     ["src/geometry/Polygon.cpp", "src/geometry/Cone.cpp", "src/geometry/Halfspace.cpp", "src/geometry/ExpandTube.cpp", "src/geometry/Union.cpp", "include/fub/geometry/Invert.hpp", "include/fub/geometry/RotateAroundPoint.hpp", "include/fub/geometry/RotateAxis.hpp", "include/fub/geometry/PolymorphicGeometry.hpp", "include/fub/geometry/Ambient.hpp", "include/fub/initial_data/Constant.hpp"],
     [("signed distances", "src/geometry/*.cpp")], observe=["level-set values at sampled points"])

prop("C18", "Cut-cell fluxes are conservative and reduce to the regular scheme",
     "For every distribution of cell and face fractions the open part of a face is the sum of its unshielded, left-shielded, right-shielded and doubly shielded parts (none negative), and the stabilised flux of a face is the combination of the regular flux and the two shielded fluxes weighted with the relative parts, where a shielded flux interpolates between the regular flux and the wall flux of the shielding cell by its distance to the wall; one value per face, so mass is conserved. "
     "It equals the flux of the base method where a face and its neighbours are fully open, and fluxes on open faces, wall fluxes and the stable time step do not depend on values in covered cells. "
     "A uniform flow along a planar embedded wall is kept: every regular, wall, shielded and stabilised flux is the physical flux of that flow. "
     "For any state next to a wall of any orientation the wall fluxes carry no mass, energy or scalars and no shear: their projection on the wall normal is the wall pressure of the reflected Riemann problem. "
     "The reported time step is the smallest over all open faces of the patch and ignores closed ones.",
     ["inputs", "configurations"],
     "all volume/face fraction fields of planar cuts and channels at any slope and position and random admissible ones, ranks 2-3, directions, base methods, Riemann solvers, states",
     "No stable test touches cut cells.",
     ["src/CutCellData.cpp", "include/fub/CutCellData.hpp", "src/AMReX/cutcell/FillCutCellData.cpp", "src/cutcell_method/KbnStabilisation.cpp", "include/fub/cutcell_method/KbnStabilisation.hpp", "src/cutcell_method/MyStabilisation.cpp", "include/fub/flux_method/HllMethod.hpp"],
     [("face fractions", "src/AMReX/cutcell/FillCutCellData.cpp"), ("stabilised flux combination", "src/cutcell_method/*.cpp"), ("wall flux, masked regular flux, time step", "include/fub/cutcell_method/KbnStabilisation.hpp")], observe=["face parts, wall fluxes, regular, shielded and stabilised fluxes, time step"])

prop("C19", "Multi-dimensional limiting and least-squares gradients are exact and monotone",
     "Least-squares gradients on neighbouring cell centroids reproduce the gradient of any affine field exactly for every admissible set of neighbours, (open faces in both directions; a corner cell completes stencils with only two open faces). Every quantity is limited against itself: the limiter factors lie in [0,1], keep the values reconstructed at every face neighbour on the same side of the wall between the values of the two cells, up to round-off, and are the best such factors (they are one whenever no limiting is necessary). "
     "Gradients of covered cells are zero, limiting never fails, and results do not depend on values of covered cells.",
     ["inputs"], "all positions and slopes of planar walls, channels and double-sided walls, cell sizes and fields in 2-D (the only implemented dimension)",
     "No stable test touches these routines.",
     ["src/cutcell_method/AnyMdLimiter.cpp", "include/fub/cutcell_method/AnyMdLimiter.hpp", "include/fub/cutcell_method/MdGradients.hpp"],
     [("linear-program limiter", "src/cutcell_method/AnyMdLimiter.cpp"), ("least squares", "include/fub/cutcell_method/MdGradients.hpp")],
     observe=["gradients and limited values"])

prop("C20", "The stiff ODE solver meets its tolerance and reports what it integrates",
     "Integrating any well-posed initial-value problem, stiff or not, returns the exact solution within a modest multiple of the requested tolerance (for stiff problems: of the error level its reduced order leaves, the 4/7th power of the relative tolerance) at the requested end time, and splitting the interval or repeating the call on the same or a copied solver object gives the same solution within tolerance. "
     "Intermediate-result callbacks see strictly increasing times from the start to the end of the interval with solution values on the trajectory, and failures are reported rather than returned as results.",
     ["inputs", "histories"],
     "all end times, dimensions, stiffness ratios, tolerances, with and without Jacobian, callbacks, repeated use",
     "No stable test integrates an ODE.",
     ["src/ode_solver/RadauSolver.cpp", "include/fub/ode_solver/RadauSolver.hpp", "include/fub/ode_solver/OdeSolver.hpp", "src/ode_solver/OdeSolverFactory.cpp", "src/ode_solver/radau.f", "src/ode_solver/decsol.f", "src/ode_solver/dc_decsol.f"],
     [("implicit Runge-Kutta integration", "src/ode_solver/RadauSolver.cpp, src/ode_solver/radau.f")], observe=["solution vectors, callback trace"])

prop("C21", "Refinement tagging marks exactly the cells its criterion selects",
     "Gradient-based tagging marks a cell exactly when the relative change to a neighbour exceeds the configured tolerance in any configured variable and direction, in every rank; cut-cell tagging marks exactly the partially covered cells; buffering marks exactly the cells within the configured distance of a marked cell (along any axis combination) and never clears or writes outside the tag array. "
     "Existing marks are kept and results do not depend on the order of cells or the vectorisation.",
     ["inputs", "configurations"],
     "all tag patterns, widths, data, tolerances, ranks 1-3, patch origins",
     "No stable test uses tagging.",
     ["src/tagging_method/TagBuffer.cpp", "src/tagging_method/TagCutCells.cpp", "include/fub/tagging_method/TagBuffer.hpp", "include/fub/tagging_method/TagCutCells.hpp", "include/fub/tagging_method/GradientDetector.hpp"],
     [("tag loops", "src/tagging_method/*.cpp, include/fub/tagging_method/GradientDetector.hpp")], observe=["tag arrays"])

prop("C22", "Timers and counters report exactly what was measured",
     "After any sequence of measurements, a counter's count, minimum, maximum, mean, variance and sum-based statistics equal those of the recorded samples, each started and not cancelled measurement contributes exactly one sample however the timer object is moved, nested or stopped, and registries return the same counter for the same name and include every one in the statistics. "
     "Gathering over several processes combines the smallest minimum, the largest maximum and the average of the per-process means of every process that took samples, and the same counters exist on the root afterwards.",
     ["histories", "inputs", "configurations"],
     "all sequences of start/stop/move/reset operations, nested timers, sample values; any number of MPI ranks",
     "No stable test covers counters.",
     ["src/counter/Counter.cpp", "src/counter/Timer.cpp", "src/counter/CounterRegistry.cpp", "include/fub/counter/Counter.hpp", "include/fub/counter/Timer.hpp", "include/fub/counter/CounterRegistry.hpp", "include/fub/counter/CounterResult.hpp"],
     [("online statistics", "src/counter/Counter.cpp")], observe=["reported statistics"])

prop("C23", "Pool memory hands out disjoint, correctly sized and reusable blocks",
     "Blocks that are allocated at the same time never overlap, are at least as large and as aligned as requested, keep their contents until they are released, and released blocks are reused without growing the pool for the same size. "
     "Every block obtained from the underlying resource is returned to it exactly once with its original size and alignment when the pool goes away.",
     ["histories", "inputs"],
     "all allocation/release sequences, sizes and alignments",
     "No test touches the allocator.",
     ["src/PoolAllocator.cpp", "include/fub/PoolAllocator.hpp"],
     [("free lists by size", "src/PoolAllocator.cpp")], observe=["addresses and upstream allocation log"])

prop("C24", "Type-erased plug-ins behave as independent values and forward faithfully",
     "Boundary conditions, initial data, tagging methods, geometries, limiters and ODE solvers stored in their generic wrappers receive every call exactly once with unchanged arguments and return their results and side effects unchanged. "
     "Copies are independent of the original, moving transfers ownership, self- and re-assignment are safe, and empty wrappers can be copied and destroyed.",
     ["histories", "configurations"],
     "all sequences of construct/copy/move/assign/call/destroy over several wrapped types",
     "No stable test uses the wrappers.",
     ["include/fub/AnyBoundaryCondition.hpp", "include/fub/AnyInitialData.hpp", "include/fub/AnyTaggingMethod.hpp", "include/fub/cutcell_method/AnyMdLimiter.hpp", "include/fub/geometry/PolymorphicGeometry.hpp", "include/fub/output/BasicOutput.hpp", "include/fub/core/function_ref.hpp"],
     [("clone-based type erasure", "include/fub/Any*.hpp")], observe=["instance census and call log of instrumented plug-ins"])

prop("C25", "Configuration, input copies, logs and parallel utilities are faithful",
     "Options read from a configuration keep their exact values and types, missing or wrongly typed options fall back to the given default or are reported, and nested option groups are read in the same way; copying an input file to the output reproduces its bytes. "
     "Log rotation keeps every earlier log file with its content, records below the configured severity are dropped and others appear once with the right time and level, and reductions and broadcasts over processes return the global minimum and the root's bytes on every process.",
     ["inputs", "configurations", "histories"],
     "all option types and values, nested groups, file contents (including binary and empty), repeated initialisation, 1-4 processes",
     "No stable test covers these facilities.",
     ["src/ext/ProgramOptions.cpp", "include/fub/ext/ProgramOptions.hpp", "src/ext/CopyInputFile.cpp", "src/ext/Log.cpp", "include/fub/ext/Log.hpp", "src/ext/Mpi.cpp", "include/fub/ext/Mpi.hpp", "include/fub/ext/uuid.hpp"],
     [("python options", "src/ext/ProgramOptions.cpp"), ("log setup", "src/ext/Log.cpp")], observe=["parsed values, files, per-rank results"])

prop("C26", "No memory error or undefined behaviour on any admissible input",
     "Every public operation of the library, on every admissible input and patch size, accesses only memory inside the objects it was given, never reads uninitialised or released memory, and executes no undefined operation (out-of-range index, signed overflow, invalid conversion, missing return value, null dereference, misaligned access). "
     "This includes unusual but admissible shapes: width-one patches, sizes not divisible by the vector width, zero species, empty boxes and failure paths.",
     ["inputs", "histories", "configurations"],
     "the workloads of the other properties, run under address and undefined-behaviour instrumentation with exact-size heap buffers",
     "Tests run uninstrumented on few inputs; most such errors do not change results.",
     ["include/fub/State.hpp", "include/fub/StateArray.hpp", "include/fub/StateRow.hpp", "include/fub/PatchDataView.hpp", "include/fub/core/mdspan.hpp", "include/fub/core/span.hpp", "src/HyperbolicPatchIntegrator.cpp", "src/CutCellData.cpp", "src/cutcell_method/KbnStabilisation.cpp", "src/tagging_method/TagBuffer.cpp", "src/PoolAllocator.cpp", "src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/ode_solver/RadauSolver.cpp", "src/geometry/ExpandTube.cpp"],
     [("bounds-respecting views", "include/fub/core/mdspan.hpp, include/fub/StateRow.hpp")], observe=["sanitizer reports"])

prop("C27", "Independent objects can be used from different threads",
     "Using distinct or per-thread copies of equations, flux methods, integrators, reactors, ODE solvers, options and counters concurrently from different threads has no data race and gives bit-identical results to using them one after another. "
     "Per-thread storage hands each thread its own copy.",
     ["schedules", "inputs"], "thread counts 2-8, all interleavings reachable with injected delays, all policies that run in parallel",
     "All existing tests are single threaded.",
     ["include/fub/ext/omp.hpp", "include/fub/Execution.hpp", "src/HyperbolicPatchIntegrator.cpp", "src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/ode_solver/RadauSolver.cpp", "include/fub/equations/perfect_gas/HllemMethod.hpp", "src/equations/PerfectGas.cpp"],
     [("per-thread copies", "include/fub/ext/omp.hpp:OmpLocal")], observe=["race reports, bitwise comparison with sequential reference"])

prop("C28", "Prescribed-flow inverse problems return states that meet the prescription",
     "Finding the state that carries a required mass flow, or that results from expanding a state isentropically to another pressure, returns a state that has exactly that mass flow or pressure within tolerance while keeping the invariants it promises (entropy, total enthalpy, Riemann invariant, composition) for every attainable requirement. "
     "A required mass flow beyond the choked one is reported, and iterative root finding returns a root of the function it was given or reports failure.",
     ["inputs"], "all interior states, required mass flows from choked to reverse, pressure ratios, gas models",
     "No stable test covers these.",
     ["include/fub/equations/RequireMassflow.hpp", "include/fub/NewtonIteration.hpp", "src/equations/PerfectGas.cpp", "include/fub/equations/PerfectGasMix.hpp", "src/equations/PerfectGasMix.cpp", "src/equations/IdealGasMix.cpp"],
     [("bracketing and root finding", "include/fub/equations/RequireMassflow.hpp")], observe=["returned states"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for x in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + x): print("missing", p["id"], x)
print(len(P))
