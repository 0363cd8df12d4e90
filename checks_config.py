"""What each check builds (harness files + translation units of /repo), how,
and what it claims.  Read by check.py."""
import os
REPO = os.environ.get("FUB_REPO", "/repo")  # another tree only while developing
WARN = ["-w"]
PLAIN = ["-O1", "-g0"] + WARN
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "plain": dict(cxx="g++", cxxflags=PLAIN, cc="gcc", cflags=["-O1", "-w"], fflags=["-O1", "-w", "-fopenmp", "-std=legacy"], ldflags=["-fopenmp"]),
    "asan": dict(cxx="g++", cxxflags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SAN + WARN, cc="gcc", cflags=["-O1", "-g1", "-w"] + SAN, fflags=["-O1", "-g1", "-w", "-fopenmp", "-std=legacy", "-fcheck=bounds"], ldflags=SAN + ["-fopenmp"]),
    "tsan": dict(cxx="g++", cxxflags=["-O1", "-g1", "-fsanitize=thread"] + WARN, cc="gcc", cflags=["-O1", "-g1", "-w", "-fsanitize=thread"], fflags=["-O1", "-g1", "-w", "-fsanitize=thread", "-std=legacy"], ldflags=["-fsanitize=thread"]),
}
OBJ_FLAGS = {}

ALL_LIBS = ["-Wl,--as-needed", "-Wl,--allow-multiple-definition", "-lmpi_cxx", "-lmpi", "-lboost_log_setup", "-lboost_log", "-lboost_thread", "-lboost_filesystem", "-lboost_system",
            "-lboost_date_time", "-lboost_program_options", "-lboost_container", "-lboost_serialization", "-lpython3.12", "-lVc", "-lgmp", "-lmpfr",
            "-ltbb", "-lgfortran", "-lpthread"]

EXES = {}
TECH = {}
NOT_APPLICABLE = {}
CHECKS = {}


def exe(name, src, repo=(), libs=(), flavour="plain", **kw):
    EXES[name] = dict(src=list(src), repo=list(repo), libs=list(libs), flavour=flavour, **kw)


def check(pid, exes, rule, assumptions=(), level="exploration"):
    CHECKS[pid] = dict(exes=list(exes), rule=rule, assumptions=list(assumptions), level=level)


SPLIT = ["src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp", "src/split_method/StrangSplittingLumped.cpp"]
exe("split", ["c12_split.cpp"], SPLIT)
check("C12", ["split"],
      "a case is a random composition of 2..5 operators with a random failure position, step and splitting; distinct = distinct recorded call logs (operator, fraction) including the failing call, and distinct order-of-accuracy experiments",
      ["time fractions are compared exactly (powers of two of the step)"])
exe("mdspan", ["c16_mdspan.cpp"])
check("C16", ["mdspan"], "a case is a random extents/layout/slice combination or span operation; distinct = distinct (layout, static/dynamic extents, slice) tuples whose every element address was compared")
exe("pool", ["c23_pool.cpp"], ["src/PoolAllocator.cpp"])
check("C23", ["pool"], "a case is a random history of allocations and releases with mixed sizes and alignments and injected upstream failures; distinct = distinct histories (sequence of operations with sizes)",
      ["requests with alignment above the platform maximum are included up to 64"])
COUNTER = ["src/counter/Counter.cpp", "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp"]
MPIRUN = ["mpirun", "--oversubscribe", "--bind-to", "none", "-n"]
exe("counter", ["c22_counter.cpp"], COUNTER, runner=MPIRUN + ["3"], shards=2)
check("C22", ["counter"], "a case is a random history of samples, timer operations (start, move, assign, end) or registry requests, executed on three MPI processes with different samples; distinct = distinct operation traces / sample sets",
      ["durations are judged by brackets of steady_clock readings around every operation"])
GEO = ["src/geometry/Cone.cpp", "src/geometry/Halfspace.cpp", "src/geometry/Polygon.cpp", "src/geometry/ExpandTube.cpp", "src/geometry/Union.cpp"]
exe("geometry", ["c17_geometry.cpp"], GEO)
check("C17", ["geometry"], "a case is a random shape (polygon incl. lattice, degenerate and self-intersecting ones, cone, half space, bent tube, union, rotation) with random, lattice-aligned and near-boundary query points; distinct = distinct (shape, point) evaluations",
      ["signs are judged only at points farther than 1e-9 from the boundary", "inside is positive for polygons, tubes and unions and negative for cones built with inside=true, as the code documents by its use"])

# ---- equations and flux methods
EQ = "src/equations/"
MECH = [EQ + "ideal_gas_mix/FlameMasterReactor.cpp", EQ + "ideal_gas_mix/mechanism/Burke2012.cpp"]
RADAU_ALL = ["src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp", "src/ode_solver/radau.f", "src/ode_solver/decsol.f", "src/ode_solver/dc_decsol.f"]
AD = {
    "scalar": (["ad_scalar.cpp"], [EQ + s + ".cpp" for s in ("Advection", "advection/GodunovMethod", "advection/MusclHancockMethod", "Burgers", "burgers/GodunovMethod", "burgers/MusclHancockMethod",
                                                             "ShallowWater", "shallow_water/GodunovMethod", "shallow_water/HllMethod", "shallow_water/MusclHancockMethod")]),
}
for _n in (1, 2, 3):
    AD["gas%d" % _n] = (["ad_gas%d.cpp" % _n], [EQ + "PerfectGas.cpp"] + [EQ + "perfect_gas/%s_%dd.cpp" % (s, _n) for s in ("EinfeldtSignalVelocities", "ExactRiemannSolver", "GodunovMethod", "HllemMethod", "MusclHancockMethod", "MusclHancockPrimMethod", "MusclHancockCharacteristicMethod")]
                        + ([EQ + "perfect_gas/ThirdOrderRungeKuttaMethod_1d.cpp"] if _n == 1 else []))
    AD["igm%d" % _n] = (["ad_igm%d.cpp" % _n], [EQ + "IdealGasMix.cpp"] + MECH + [EQ + "ideal_gas_mix/%s_%dd.cpp" % (s, _n) for s in ("EinfeldtSignalVelocities", "HlleMethod", "MusclHancockPrimMethod", "MusclHancockCharacteristicMethod")])
for _n in (1, 2):
    AD["mix%d" % _n] = (["ad_mix%d.cpp" % _n], [EQ + "PerfectGasMix.cpp"] + [EQ + "perfect_gas_mix/%s_%dd.cpp" % (s, _n) for s in ("EinfeldtSignalVelocities", "HllemMethod")])


def method_exe(name, src, groups, repo=(), **kw):
    s, t = list(src), list(repo)
    for g in groups:
        s += AD[g][0]; t += [x for x in AD[g][1] if x not in t]
    if any(g.startswith("igm") for g in groups): t += [x for x in RADAU_ALL if x not in t]
    exe(name, s, t, **kw)

method_exe("update", ["c01_update.cpp"], ["scalar", "gas1", "gas2", "gas3", "mix1", "mix2", "igm1", "igm2"], ["src/HyperbolicPatchIntegrator.cpp"])
check("C01", ["update"], "a case is one update of a random patch (rank 1..3, extents, origins, padding, component count, direction, policy, in-place or not) or one periodic run (method, data, directions, policies); distinct = distinct patch geometries / (method, direction order, policies, extents)",
      ["values may differ from U + dt/dx (F_left - F_right) by a few units in the last place", "the previous and next views cover the same box, as every caller in the repository does"])
ALL_METHODS = ["scalar", "gas1", "gas2", "gas3", "mix1", "mix2", "igm1", "igm2", "igm3"]
method_exe("agreement", ["c02_agreement.cpp"], ALL_METHODS)
check("C02", ["agreement"], "a case is one set of eight random stencils (or states) with a random open/closed/covered pattern, or one random patch; distinct = distinct (method, direction, stencil kinds, open/covered pattern) and (method, direction, extents, policy)",
      ["lanes are compared with tolerances of 1e-12 (first order), 1e-11 (reconstructing) and, because of the temperature iteration, 1e-7 (reacting gas) relative to the flux scale of the stencil", "a covered outer cell of a wide stencil contributes no slope"])
method_exe("consistency", ["c03_consistency.cpp"], ALL_METHODS)
check("C03", ["consistency"], "a case is one stencil (uniform, one-sided, resting contact, random) of one flux method evaluated through a randomly chosen entry point; distinct = distinct (method, entry point, direction, case) tuples",
      ["reacting-gas results carry the tolerance of the temperature iteration", "third-order Runge-Kutta reconstruction is judged for uniform data only"])
method_exe("symmetry", ["c04_symmetry.cpp"], ALL_METHODS)
check("C04", ["symmetry"], "a case is one stencil or patch of one flux method and its mirrored, axis-exchanged or embedded image; distinct = distinct (method, entry point, directions, case) tuples",
      ["advection is excluded because its velocity field belongs to the equation (its closed form is decided by C03)", "iterative Riemann solvers are compared with 2e-6 of the flux scale"])
method_exe("timestep", ["c05_timestep.cpp"], ALL_METHODS)
check("C05", ["timestep"], "a case is one stencil, or one random patch with a planted fastest cell, of one flux method; distinct = distinct (method, entry points, direction, position of the fast cell) tuples",
      ["the exact Riemann solvers are compared with 1e-5 (perfect gas) and 1e-2 (shallow water: shock speeds are quotients of small differences)"])
exe("riemann", ["c06_riemann.cpp"], [EQ + "PerfectGas.cpp", EQ + "ShallowWater.cpp", EQ + "Burgers.cpp", EQ + "Advection.cpp"] + [EQ + "perfect_gas/ExactRiemannSolver_%dd.cpp" % n for n in (1, 2, 3)])
check("C06", ["riemann"], "a case is eight random pairs of states (shock tubes, collisions, expansions, contacts, drifts) sampled on the interface and on a random ray; distinct = distinct (rank, direction, wave pattern, region of the solution, kind) tuples",
      ["results carry the tolerance of the Newton iteration (1e-7 in velocity units)", "pairs that create vacuum are excluded", "shock speeds of invisible shallow-water shocks (height jump below 1e-3) are not judged"])
method_exe("bounds", ["c09_bounds.cpp"], ALL_METHODS, ["src/HyperbolicPatchIntegrator.cpp"])
check("C09", ["bounds"], "a case is a history of sweeps in random directions over a periodic patch of random (up to strong-jump) data with steps up to the limit; distinct = distinct (method, extents, data kind, direction history) tuples",
      ["systems are stepped with up to half of the reported step, so that waves of two faces do not meet", "data that would open a vacuum are not given to the exact Riemann solvers", "the plain HLLEM flux promises no bounds for species"])
method_exe("reconstruction", ["c10_reconstruction.cpp"], ALL_METHODS, ["src/HyperbolicPatchIntegrator.cpp"])
check("C10", ["reconstruction"], "a case is eight pairs of one-sided slopes, one random stencil with its limited slopes and half-step face values, one smooth stencil whose flux is compared with the second-order value, or one run under grid refinement; distinct = distinct (equation, variables, limiter, direction, data) tuples",
      ["the MUSCL methods are refined with smooth, mildly varying data and Courant numbers up to 0.4", "the reacting gas is judged by the truncation error of single faces only"])
exe("thermo", ["c07_thermo.cpp"], [EQ + "PerfectGas.cpp", EQ + "PerfectGasMix.cpp"])
check("C07", ["thermo"], "a case is one random state (heat-capacity ratio, gas constant, reference Mach number, species, scalars, rank) pushed through the conversions, eight such states in lanes with a random mask, one rotation/reflection, or one isentropic change; distinct = distinct (equation, call form, species and scalar count, Mach bin / mask / normal / pressure-ratio bin) tuples",
      ["a reference Mach number other than one is used for conversions, not for isentropic changes", "total enthalpy is judged for pressures below the stagnation pressure"])
exe("inverse", ["c28_inverse.cpp"], [EQ + "PerfectGas.cpp", EQ + "PerfectGasMix.cpp"])
check("C28", ["inverse"], "a case is one source state with a required mass flow (expansion up to choking, shock, reverse flow, unattainable), one isentropic pressure change or one root-finding problem (with and without a root, undefined values, iteration limits); distinct = distinct (gas, direction, kind, Mach and pressure-ratio bin / problem, start, outcome) tuples",
      ["mass flows are prescribed through a left-running wave with pressure ratios between 3e-4 and 3000"])
exe("reactor", ["c08_reactor.cpp"], [EQ + "IdealGasMix.cpp"] + MECH + RADAU_ALL)
check("C08", ["reactor"], "a case is a random history of 2..12 set/read/advance/copy/move operations on one reactor judged after every operation against an independent mixture model, one state of the mechanism data, one closed-volume reaction (advanced, advanced in two parts, advanced on a fresh object) or one set of complete gas states; distinct = distinct operation histories / (composition kind, temperature, pressure, time step, heat release) bins",
      ["energy and element conservation are judged with the tolerance of the ODE solver (2e-4 of the energy scale, 1e-6 of the amounts)", "additivity is judged with 3e-3 because ignition amplifies solver errors", "temperatures found from energies carry the 1e-6 K tolerance of the iteration (0.5 K at the 1000 K seam of the thermodynamic data)"])

exe("ode", ["c20_ode.cpp"], RADAU_ALL)
check("C20", ["ode"], "a case is one random initial-value problem with known solution (forced stiff decay, rotation, logistic, quadratic decay, quadrature, reaction chain, stiff cubic relaxation) integrated whole, in parts, repeatedly and on copies, with and without callback and Jacobian, or one problem that must fail; distinct = distinct (problem, size, stiffness, mode, tolerance decade, reuse pattern)",
      ["the exact solutions are closed formulas evaluated in double precision", "modest multiple = 2000 times the growth factor of the problem"])

# ---- time loop and outputs
LOOP = ["src/RunSimulation.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Mpi.cpp", "src/ext/Version.cpp", "src/ext/Log.cpp"] + COUNTER
exe("loop", ["c13_loop.cpp"], LOOP, version=True)
check("C13", ["loop"], "a case is one run of the time loop with a scripted solver (random stable steps, rejected steps at chosen states, random options and output times), one interrupted and resumed run, or one progress line; distinct = distinct sequences of accepted steps, rejected steps and outputs",
      ["a rejected step reports a bound below the attempted step, so that a retry is smaller"])
exe("output", ["c14_output.cpp"], LOOP, version=True)
check("C14", ["output"], "a case is one run (or up to three consecutive runs) of the time loop with random schedules, single, grouped, nested or built from options, with and without rejected steps, or a set of queries of the schedule classes near and away from scheduled times; distinct = distinct firing traces",
      ["time stamps within 1.5e-12 of a multiple count as the multiple (the loop steps 1e-12 beyond it by design); between 1.5e-12 and 4e-12 nothing is judged", "a schedule passed directly to the time loop is also invoked with the last state of a run"])
exe("amr", ["c11_amr.cpp"], LOOP + SPLIT, version=True, runner=MPIRUN + ["3"], shards=2)
check("C11", ["amr"], "a case is a short run of the subcycling or non-subcycling solver template over a scripted hierarchy (1..4 levels, ratios 2..4, rank 1..3, regridding, rejected steps on any level, with or without source term) on three processes; distinct = distinct traces of sweeps, fills, corrections and rejections",
      ["the hierarchy below the solver templates is a model (the AMReX and SAMRAI back ends are not installed); rank one carries a real finite-volume solution"])
exe("tagging", ["c21_tagging.cpp"], ["src/tagging_method/TagBuffer.cpp", "src/tagging_method/TagCutCells.cpp", EQ + "PerfectGas.cpp"])
check("C21", ["tagging"], "a case is one tag array (random rank, extents, origin, padding, marks) that is buffered, tagged by volume fractions or tagged by gradients of random data (uniform, integers with exact ties and zeros, gentle, wild, isolated jumps); distinct = distinct (detector, extents, data kind, number of marked cells) tuples",
      ["relative changes within 1e-14 of the tolerance are not judged unless they are exactly equal to it", "a cell whose neighbour on one side is covered may or may not be judged by its other side"])
exe("index", ["c15_index.cpp"], ["src/boundary_condition/ReflectiveBoundary.cpp", EQ + "PerfectGas.cpp", EQ + "PerfectGasMix.cpp", EQ + "IdealGasMix.cpp"] + MECH + RADAU_ALL + [EQ + "perfect_gas/%s_%dd.cpp" % (m, n) for n in (1, 2, 3) for m in ("EinfeldtSignalVelocities", "ExactRiemannSolver", "GodunovMethod", "HllemMethod", "MusclHancockMethod", "MusclHancockPrimMethod")])
check("C15", ["index"], "a case is one pair of random boxes (rank 1..4, possibly empty) with the algebra judged against enumerated cells, one nested chain of sub-views, one set of views walked row by row, or one ghost layer filled by a reflecting wall (and the flux through that wall); distinct = distinct boxes / view chains / (equation, direction, side, box) tuples",
      ["containment of an empty box is not judged", "sub-views lie inside of their parent, as the code asserts"])

exe("wrappers", ["c24_wrappers.cpp"], GEO + MECH + RADAU_ALL + ["src/CutCellData.cpp", "src/cutcell_method/AnyMdLimiter.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Mpi.cpp", EQ + "PerfectGas.cpp"])
check("C24", ["wrappers"], "a case is one random history of constructions, copies, moves, assignments, swaps, calls and destructions over five wrappers of instrumented plug-ins, or of reactors, solvers, states and callbacks; distinct = distinct histories",
      ["a moved-from reactor is only assigned to or destroyed"])

exe("cutcell", ["c18_cutcell.cpp"], ["src/CutCellData.cpp", "src/cutcell_method/KbnStabilisation.cpp", "src/cutcell_method/MyStabilisation.cpp", "src/AMReX/cutcell/FillCutCellData.cpp", EQ + "PerfectGas.cpp", EQ + "PerfectGasMix.cpp"]
    + [EQ + "perfect_gas/%s_%dd.cpp" % (m, n) for n in (2, 3) for m in ("EinfeldtSignalVelocities", "ExactRiemannSolver", "GodunovMethod", "HllemMethod", "MusclHancockMethod", "MusclHancockPrimMethod", "MusclHancockCharacteristicMethod")]
    + [EQ + "perfect_gas_mix/%s_2d.cpp" % m for m in ("EinfeldtSignalVelocities", "HllemMethod")])
exe("mdgrad", ["c19_mdgrad.cpp"], ["src/CutCellData.cpp", "src/cutcell_method/AnyMdLimiter.cpp", "src/AMReX/cutcell/FillCutCellData.cpp", EQ + "PerfectGas.cpp", EQ + "PerfectGasMix.cpp"]
    + [EQ + "perfect_gas_mix/HllemMethod_1d.cpp", EQ + "perfect_gas_mix/HllemMethod_2d.cpp"])
check("C19", ["mdgrad"], "a case is one planar geometry (wall, channel or double-sided wall of any slope and position) with random values and gradients limited cell by cell, or one field (affine or rough, conservative or primitive variables, each of the limiters) whose gradients are computed on the whole patch twice with different values in covered cells; distinct = distinct (limiter, kind of field, cell kinds) tuples",
      ["two space dimensions, the only ones implemented", "open cells have open faces in both directions"])
check("C18", ["cutcell"], "a case is one geometry (planar wall or channel of any slope and position, or random admissible fractions) in two or three dimensions with its face fractions, one combination of random fluxes, one uniform flow along a planar wall, or random states for which wall fluxes, regular and stabilised fluxes and the time step are judged; distinct = distinct (method, direction, geometry, cell kinds) tuples",
      ["wall states stay below the speed that opens a vacuum at the wall", "parts of a face that are shielded from both sides carry no flux, as coded"])
