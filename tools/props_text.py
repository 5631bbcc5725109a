TECH = "stateless model checking of the real code: every execution of a bounded environment is enumerated"
NOTES = ("No hooks in /repo. Each check compiles the sources of /repo's working tree it needs together with a harness of "
         "/verif and enumerates every choice sequence of every scenario (see DESIGN.md). A recorded violation is replayed "
         "with 'python3 check.py <ID> --replay <file>'.")
PROPERTIES = []


def prop(**kw):
    PROPERTIES.append(kw)


prop(id="R01", title="The run loop ends exactly at its limits and never steps past a deadline",
     statement="A simulation run advances time by steps that are never larger than the solver's stable step times the CFL number and never pass the final time or the next requested output time. It ends exactly when the final time is reached or the cycle limit is hit, with the time point and the cycle count equal to the sum and number of accepted steps. Per step the order is: stable step, advance, bookkeeping, output.",
     over=["histories", "configurations", "fault_sequences"],
     quant="for every sequence of stable step sizes and step rejections, every final time, start time, CFL number, cycle limit and output schedule",
     why="tests run a handful of fixed problems to a fixed end time; the guarantee is over all histories of stable step sizes and rejections the solver may report",
     files=["include/fub/RunSimulation.hpp", "src/RunSimulation.cpp"],
     mech=[("RunSimulation loop and time step clipping", "include/fub/RunSimulation.hpp"), ("RunOptions", "src/RunSimulation.cpp")],
     note="Exhaustive over the environments listed per scenario in the evidence (stable sizes from a 4-value alphabet for the first 4/6 steps, then constant); the loop under test is the template of /repo instantiated with a scripted solver. Assumes the solver only interacts through the documented solver concept.")
prop(id="R02", title="A rejected time step is invisible in the accepted history",
     statement="When a time step is rejected and a backup is kept, the run continues from exactly the state before the rejected step, with a smaller step, and the accepted history (states, time points, cycles, outputs) contains no trace of the rejected attempt. Without a backup the run stops with an error after the rejection and publishes nothing further.",
     over=["fault_sequences", "histories", "configurations"],
     quant="for every pattern of accepted and rejected attempts (including consecutive rejections), every suggested retry step and every output schedule",
     why="no test rejects a step; fault patterns over the history are unbounded",
     files=["include/fub/RunSimulation.hpp"],
     mech=[("backup and retry with failure_dt", "include/fub/RunSimulation.hpp")],
     note="Exhaustive fault enumeration over accept/reject patterns (3 suggestions, up to 3 rejections in a row, 2/3 faulty steps). The accepted history is compared with a reference run that never fails.")
prop(id="R03", title="Every requested output is written exactly once and at the requested time",
     statement="For each configured output, an output is written at the initial time, at every multiple of each interval within the run, at every cycle that is a multiple of each frequency, and at the final state, once per event and at no other time. Time steps hit interval multiples exactly and are not degraded to roundoff-sized steps; each output of a collection behaves as if it were alone with respect to which events it reports.",
     over=["histories", "configurations"],
     quant="for every combination of intervals and frequencies, every final time and every sequence of stable step sizes, including those that land next to an interval multiple in floating point",
     why="tests write outputs for one schedule; missed or doubled outputs depend on floating point coincidences of the whole time step history",
     files=["include/fub/output/OutputAtFrequencyOrInterval.hpp", "include/fub/output/MultipleOutputs.hpp", "include/fub/output/AsOutput.hpp", "include/fub/output/OutputFactory.hpp"],
     mech=[("ShallOutputNow / NextOutputTime", "include/fub/output/OutputAtFrequencyOrInterval.hpp"), ("MultipleOutputs", "include/fub/output/MultipleOutputs.hpp")],
     note="Exhaustive over schedule sets and step size alphabets listed in the evidence; the oracle is the schedule's definition evaluated in rational arithmetic. Frequencies are assumed positive.")
prop(id="R04", title="Every refinement level advances by the requested time in a legal order",
     statement="One step of a hierarchy advances every level by exactly the coarse step, split into as many level steps as the refinement ratio asks for, each direction by the full step, and leaves all levels at the same time with published data. Fluxes are only computed from completed states with up-to-date ghost cells; coarse and fine fluxes at level interfaces are both accumulated over the complete coarse step before the coarse level is corrected, coarsened and published; this also holds when grids are created, rebuilt or removed at any level step. The stable step of the hierarchy respects every level, direction and rank.",
     over=["histories", "configurations", "schedules"],
     quant="for every number of levels, refinement ratio, space dimension, splitting method, subcycling mode and every regrid history within the bounds",
     why="existing tests contain no hierarchy at all; the guarantee is over all level structures and regrid histories",
     files=["include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp", "include/fub/split_method"],
     mech=[("recursive level advance", "include/fub/solver/SubcycleFineFirstSolver.hpp"), ("flux register protocol", "include/fub/solver/NoSubcycleSolver.hpp"), ("directional sweeps", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp")],
     technique="explicit enumeration of protocol histories of the real solvers against a symbolic integrator context that monitors every operation",
     note="The real solver and level integrator templates run on a symbolic hierarchy; every operation is judged by a monitor. Regrid frequency is 1; ghost filling and flux registers are symbolic (the AMReX implementations are not compiled here).")
prop(id="R05", title="A step rejected on any level or rank stops all work and suggests a usable step",
     statement="If any level step on any rank finds the step too large, or a finished level step is rejected, the hierarchy step fails on all ranks, no level is touched afterwards, and the reported step size refers to the coarsest level (the level's stable size times the total refinement ratio). A step exactly at the stability limit is accepted.",
     over=["fault_sequences", "configurations"],
     quant="for every place (level, subcycle, sweep, rank) at which a step may be rejected",
     why="no test rejects a level step; places grow with levels, ratios, directions and ranks",
     files=["include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp"],
     mech=[("TimeStepTooLarge propagation and scaling", "include/fub/solver/SubcycleFineFirstSolver.hpp"), ("global minimum per sweep", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp")],
     technique="exhaustive fault injection at every sweep, level step and rank of the real solvers on a symbolic hierarchy",
     note="One fault per hierarchy step at every possible place, for all configurations listed in the evidence; the other rank is modelled through the reduction.")
prop(id="R06", title="Operator splittings apply every operator for the documented time with early exit",
     statement="A splitting method applies its operators in the documented order and for the documented fractions of the step, so that each operator advances by exactly the full step in total, for any number of operators, and a type-erased splitting does the same as the wrapped one. The first operator that fails ends the step, its error is returned, and no further operator runs.",
     over=["histories", "fault_sequences", "configurations"],
     quant="for every splitting method, one to four operators, every place at which an operator may fail and every step size",
     why="tests call one splitting with two operators that succeed; failing operators and three or more operators are not tested",
     files=["include/fub/split_method", "src/split_method"],
     mech=[("Godunov, Strang, lumped Strang", "src/split_method"), ("type-erased splitting", "include/fub/split_method/SplittingMethod.hpp")],
     technique="stateless exploration of the real code with fault injection at every operator application",
     note="Enumerates methods x number of operators x step sizes x every failing application; the reference sequence is written from the documented definition of each splitting.")
prop(id="R07", title="Source terms and transport are coupled without losing time, data or errors",
     statement="A solver split into transport and source terms advances both by exactly the requested step on every level, in the order of the chosen splitting. A rejection by either part fails the whole step and is not overwritten, and the reported stable step is the minimum of both parts.",
     over=["histories", "fault_sequences", "configurations"],
     quant="for every splitting method, number of levels, subcycling mode and every place at which the source or transport part may reject the step",
     why="no test runs a hierarchy with a source term or rejects one of the two parts",
     files=["include/fub/solver/SplitSystemSourceLevelIntegrator.hpp", "include/fub/split_method"],
     mech=[("coupled level step", "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp")],
     technique="exhaustive fault injection on the real coupled integrators over a symbolic hierarchy",
     note="The real coupled integrator and solver templates run on symbolic levels; each part may reject at every application.")
prop(id="R08", title="The conservative update of a patch is exact and touches nothing but its cells",
     statement="The conservative update of a patch adds dt/dx times the flux difference of the two faces of each cell, for every cell of the patch and nothing outside of it, for every shape, memory layout, direction and execution mode. All execution modes agree, and no memory outside of the given views is read or written.",
     over=["inputs", "configurations"],
     quant="for every patch shape (down to single cells and row lengths around the vector width), direction, embedding into larger arrays, number of variables and execution mode",
     why="tests update one or two patches in one mode; the row tails, strides and memory bounds depend on each shape",
     files=["src/HyperbolicPatchIntegrator.cpp", "include/fub/HyperbolicPatchIntegrator.hpp"],
     mech=[("UpdateConservatively for all modes", "src/HyperbolicPatchIntegrator.cpp")],
     technique="exhaustive enumeration of shapes, strides, directions and modes of the real update with guard pages behind every buffer",
     note="Values are exactly representable so that results are compared bit by bit; access outside of the views hits an inaccessible page or a poisoned cell.")
prop(id="R09", title="Patch fluxes and stable steps apply the method at every interface of a patch",
     statement="The numerical fluxes of a patch are the flux method applied to the stencil of every interface, for every patch shape, memory layout, direction, stencil width and execution mode, and nothing outside of the flux view is written nor outside of the state view read. The stable step of a patch is the minimum of the method's stable step over all of its interfaces, in every execution mode.",
     over=["inputs", "configurations"],
     quant="for every patch shape and row length around the vector width, direction, stencil width, embedding and execution mode, wherever the smallest stable step is attained",
     why="tests use a few full-width patches and compare one mode; row tails and the position of the decisive interface are not covered",
     files=["include/fub/flux_method/FluxMethod.hpp", "include/fub/ForEach.hpp", "include/fub/StateRow.hpp", "include/fub/State.hpp", "include/fub/StateArray.hpp"],
     mech=[("ComputeNumericFluxes and ComputeStableDt", "include/fub/flux_method/FluxMethod.hpp"), ("rows and chunks", "include/fub/StateRow.hpp")],
     technique="exhaustive enumeration of shapes, strides, directions and modes of the real patch kernels with guard pages and an exactly representable test method",
     note="A test equation with scalar and vector variables and an asymmetric, exactly representable base method are instantiated with the repository's patch kernels; results are compared bit by bit.")
prop(id="R10", title="Exact Riemann solvers return the exact solution and the exact fastest waves",
     statement="For any pair of admissible states that does not produce vacuum or a dry bed, the exact Riemann solver returns the middle state, the state on every ray and the fastest waves of the exact entropy solution, with transversal velocities carried from the proper side of the contact. The vectorised and masked forms agree with the scalar one in every lane and leave unused lanes alone.",
     over=["inputs", "configurations"],
     quant="for every pair of states and every wave pattern (shock, rarefaction, contact, supersonic to either side), number of space dimensions, direction, unit system and lane",
     why="tests evaluate one or two shock tubes; every wave pattern and every side of every branch needs its own states",
     files=["src/equations/perfect_gas/ExactRiemannSolver.hpp", "src/equations/ShallowWater.cpp", "include/fub/equations/Burgers.hpp", "include/fub/equations/Advection.hpp"],
     mech=[("perfect gas", "src/equations/perfect_gas/ExactRiemannSolver.hpp"), ("shallow water", "src/equations/ShallowWater.cpp"), ("Burgers, advection", "src/equations")],
     technique="exhaustive enumeration of state pairs of a grid that reaches every wave pattern, against an independent extended-precision reference",
     note="The reference finds the middle state by bisection in long double and samples the exact solution; the grid covers each sign pattern of every wave speed; within accuracy of a discontinuity both sides are accepted.")
prop(id="R11", title="State conversions and physical fluxes of the gas and water equations are exact",
     statement="Converting a state between its conservative, complete, primitive and kinetic forms changes nothing but rounding, and pressure, temperature, enthalpy, speed of sound and the physical flux are those of the equation of state, for any composition and Mach number scaling. Rotations and reflections act on the velocity only, are orthogonal and reversible, and isentropic pressure changes keep entropy, stagnation enthalpy and composition. Vectorised and masked forms agree with the scalar form in every lane, and lanes that are not in use are empty.",
     over=["inputs", "configurations"],
     quant="for every admissible state, number of space dimensions, species and passive scalars, adiabatic exponent, direction, mask and pair of directions",
     why="tests check one or two states; scalar, vectorised and masked variants are separate implementations that tests never compare",
     files=["include/fub/equations/PerfectGas.hpp", "src/equations/PerfectGas.cpp", "include/fub/equations/PerfectGasMix.hpp", "src/equations/PerfectGasMix.cpp", "src/equations/ShallowWater.cpp", "include/fub/equations/Burgers.hpp", "include/fub/equations/Advection.hpp", "include/fub/ext/Eigen.hpp"],
     mech=[("perfect gas", "src/equations/PerfectGas.cpp"), ("perfect gas mixture", "include/fub/equations/PerfectGasMix.hpp"), ("shallow water", "src/equations/ShallowWater.cpp"), ("rotations", "include/fub/ext/Eigen.hpp")],
     technique="exhaustive enumeration of states, parameters, masks and directions of the real state functions against the textbook definitions",
     note="Grid over densities, pressures (including a 460:1 ratio and near-vacuum densities), velocities up to supersonic, 0..2 species and passive scalars, all directions. Assumes positive density and pressure in lanes in use.")
prop(id="R12", title="Thermodynamics and chemistry of the reactive gas mixture are consistent",
     statement="A mixture reactor is fully described by its density, temperature and composition: whatever operations led there, everything it reports is what a new reactor in the same state reports, in scalar and vectorised form and for every lane. Enthalpy is the integral of the heat capacity, setting an energy or pressure is inverted by reading it back, and state conversions, fluxes and mirror states of the mixture equation agree with these. Advancing the chemistry conserves mass, every chemical element and the energy that is held fixed.",
     over=["histories", "inputs"],
     quant="for every sequence of reactor operations and every density, temperature, composition and velocity, in every lane and with any lanes unused",
     why="tests ignite one mixture once; stale cached data only shows after particular sequences of operations",
     files=["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp", "src/equations/IdealGasMix.cpp", "include/fub/equations/IdealGasMix.hpp"],
     mech=[("reactor", "src/equations/ideal_gas_mix/FlameMasterReactor.cpp"), ("mixture equation", "src/equations/IdealGasMix.cpp")],
     technique="exhaustive enumeration of operation sequences of the real reactor, compared with a new reactor after each; enumerated state grids for the equation",
     note="Burke 2012 hydrogen mechanism. Sequences of 3 (thorough 4) out of 16 operations. Assumes temperatures of the mechanism's range and positive densities.")
prop(id="R13", title="The stiff ODE solver reaches the end time accurately or reports a failure",
     statement="An integration over any interval, forwards or backwards, with or without an exact derivative matrix, returns the solution at the end of the interval within the tolerance, and its observer sees increasing times of the interval, the first and the last included. The result does not depend on what the solver or the solver it was copied from was used for before. If the right-hand side yields values that are not numbers, for one evaluation, for a while or forever, the integration ends with the accurate result or reports the failure.",
     over=["inputs", "faults", "histories"],
     quant="for every problem, interval, tolerance, previous use and every evaluation at which the right-hand side starts to fail and for how long",
     why="tests integrate one well-behaved reaction; recovery paths run only for a failure in a particular stage of the method",
     files=["src/ode_solver/RadauSolver.cpp", "include/fub/ode_solver/RadauSolver.hpp", "src/ode_solver/radau.f", "src/ode_solver/dc_decsol.f", "include/fub/ode_solver/OdeSolver.hpp"],
     mech=[("driver and retry", "src/ode_solver/RadauSolver.cpp"), ("step rejection", "src/ode_solver/radau.f")],
     technique="exhaustive fault injection into every evaluation of the right-hand side of the real solver; enumeration of problems, intervals and histories against exact solutions",
     note="Eight problems with known solutions, stiffness up to 1e7. Values that are finite but wrong are not judged (they are legitimate right-hand sides).")
NF_WHY = "tests run one shock tube with one method; each sign pattern of the waves, each lane and each mask is a separate branch of separately written code"
prop(id="R14", title="HLL fluxes are consistent, symmetric, upwind and positive for all equations",
     statement="The HLL flux of any two admissible states reduces to the physical flux for equal and for supersonic states, commutes with mirroring and exchange of directions, and equals the HLL formula for the given signal speeds; a first order step with its stable step size keeps density, internal energy and mass fractions within their bounds. The signal speeds cover the acoustic speeds of both states and of their average, also for scaled Mach numbers. Vectorised and masked forms agree with the scalar one in every lane, and unused lanes carry no flux and no step restriction.",
     over=["inputs", "configurations"],
     quant="for every pair of states, direction, number of space dimensions, equation, lane and mask of unused lanes",
     why=NF_WHY,
     files=["include/fub/flux_method/HllMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp", "src/equations/euler_equations/EinfeldtSignalVelocities.hpp", "src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp"],
     mech=[("HLL flux", "include/fub/flux_method/HllMethod.hpp"), ("signal speeds", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp")],
     technique="exhaustive enumeration of all pairs (for steps: triples) of a pool of states, directions, lanes and masks of the real flux functions against their defining relations",
     note="Perfect gas and perfect gas mixture in 1-3 dimensions (two Mach scalings), ideal gas mixture in 1-3 dimensions, shallow water; pools of 9 to 17 states reach each sign pattern of the wave speeds. Positivity is checked at half of the stable step.")
prop(id="R15", title="Godunov fluxes are exact, symmetric and keep the maximum principle",
     statement="The Godunov flux of any two states that do not produce vacuum is the physical flux for equal and for supersonic states, keeps stationary contacts exactly, and commutes with mirroring and exchange of directions; a first order step with the stable step size keeps density, internal energy and scalar quantities within their bounds. Vectorised and masked forms agree with the scalar one in every lane, and unused lanes carry no flux and no step restriction.",
     over=["inputs", "configurations"],
     quant="for every pair of states without vacuum, direction, number of space dimensions, equation, lane and mask of unused lanes",
     why=NF_WHY,
     files=["include/fub/flux_method/GodunovMethod.hpp", "src/equations/perfect_gas/ExactRiemannSolver.hpp", "include/fub/NewtonIteration.hpp", "src/equations/ShallowWater.cpp", "src/equations/burgers/GodunovMethod.cpp", "src/equations/advection/GodunovMethod.cpp"],
     mech=[("Godunov flux", "include/fub/flux_method/GodunovMethod.hpp")],
     technique="exhaustive enumeration of all pairs (for steps: triples) of a pool of states, directions, lanes and masks of the real flux functions against their defining relations",
     note="Perfect gas in 1-3 dimensions, shallow water with two gravities, Burgers, advection with 6 velocities. The stable step of Burgers' standing shock (infinite) is accepted.")
prop(id="R16", title="HLLEM fluxes resolve contacts, transport scalars upwind and agree in all forms",
     statement="The HLLEM flux, in its plain and its upwinding form, of any two admissible states is the physical flux for equal and for supersonic states, keeps stationary contact and shear waves exactly, and commutes with mirroring and exchange of directions, also for scaled Mach numbers. In the upwinding form mass fractions stay within the bounds of their neighbours wherever mass stays positive. Vectorised and masked forms agree with the scalar one in every lane, unused lanes are harmless, and the method's Riemann solution is the state its fan takes on the face: the outer states where all waves go one way, the HLL state modified by the linear waves in between.",
     over=["inputs", "configurations"],
     quant="for every pair of states, direction, number of space dimensions, number of species and scalars, lane and mask of unused lanes",
     why=NF_WHY,
     files=["src/equations/perfect_gas/HllemMethod.hpp", "include/fub/equations/perfect_gas/HllemMethod.hpp"],
     mech=[("HLLEM flux", "src/equations/perfect_gas/HllemMethod.hpp")],
     technique="exhaustive enumeration of all pairs (for steps: triples) of a pool of states, directions, lanes and masks of the real flux functions against their defining relations",
     note="Perfect gas in 1-3 dimensions, mixture in 1-2 dimensions (as instantiated by the repository). HLLEM is linearised and not positive for violent collisions, so density and energy bounds are not judged; the Riemann solution is judged for moderate jumps only.")
prop(id="R17", title="Higher order fluxes are consistent, limited and of their order in space and time",
     statement="Every higher order flux reduces to the physical flux for constant data, commutes with mirroring and exchange of directions, and depends only on the ratio of time and space step. For smooth data it is the flux of the state at the face at half the time step up to second order, for every choice of reconstructed variables, limiter, Riemann solver and Mach number scaling; at extrema limited methods fall back to the first order flux, scalar laws keep the maximum principle. Vectorised and cut-cell forms agree with the plain one in every lane, covered cells have no influence, closed faces carry no flux, and the stable step is that of the first order method.",
     over=["inputs", "configurations"],
     quant="for every stencil of states, slope, direction, space dimension, number of species, limiter, reconstruction, Riemann solver, lane and pattern of covered cells",
     why="tests run at most one method in one dimension; a lost order of accuracy in one variable or one lane changes no test's outcome",
     files=["include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/flux_method/MusclHancockMethod2.hpp", "include/fub/flux_method/Reconstruct.hpp", "include/fub/flux_method/Gradient.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.hpp", "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp", "src/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"],
     mech=[("reconstruction", "include/fub/flux_method/Reconstruct.hpp"), ("slopes", "include/fub/flux_method/Gradient.hpp"), ("time integration", "src/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp")],
     technique="exhaustive enumeration of stencils over clusters of states, directions, lanes and covered cells of the real flux functions; enumerated (state, slope) pairs against the Taylor expansion",
     note="Perfect gas 1-3 dimensions, mixture 1-2, shallow water, Burgers, advection; conservative, primitive and characteristic variables with the limiters the repository offers; third order method in one dimension incl. viscosity and conduction. Inverse reconstruction is used nowhere and not judged.")
prop(id="R18", title="Second order fluxes of the reactive mixture keep order, symmetry, composition",
     statement="The second order fluxes of the reactive mixture reduce to the physical flux for constant data, commute with mirroring and exchange of directions, and for smooth data are the flux of the state at the face at half the time step up to second order, with all species transported alike. Extrema fall back to the first order flux; vectorised and cut-cell forms are correct in every lane, covered cells have no influence and closed faces carry no flux. The stable step is that of the first order method.",
     over=["inputs", "configurations"],
     quant="for every stencil of states and compositions, slope, direction, space dimension, lane and pattern of covered cells",
     why="no test evaluates these methods in more than one configuration; a lost order of accuracy changes no test's outcome",
     files=["src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp", "src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp", "include/fub/equations/ideal_gas_mix/MusclHancockCharactersticMethod.hpp"],
     mech=[("primitive variables", "src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"), ("characteristic variables", "src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp")],
     technique="exhaustive enumeration of stencils over clusters of states, directions, lanes and covered cells of the real flux functions; enumerated (state, slope) pairs against the Taylor expansion",
     note="Burke 2012 hydrogen mechanism, 1-3 dimensions. The scalar and the vectorised primitive method use different limiters by design and are judged separately. Mean states with all mass fractions positive along the slope.")
prop(id="R19", title="Completing a patch and reflecting walls treat every cell alike and no other cell",
     statement="Completing a patch of conserved variables gives every cell the state the single-cell conversion gives, for every patch shape and size, memory layout and execution policy. A reflecting wall fills every ghost cell with the mirror image of the cell at the same distance behind the wall, for every direction, side and width. Neither reads or writes memory outside of the patch nor changes any other cell.",
     over=["inputs", "configurations"],
     quant="for every patch shape, layout, policy, equation, dimension, direction, side and width",
     why="tests complete single cells; vector remainders, strides and the sides of walls are never visited",
     files=["include/fub/CompleteFromCons.hpp", "include/fub/boundary_condition/ReflectiveBoundary.hpp", "src/boundary_condition/ReflectiveBoundary.cpp"],
     mech=[("patch completion", "include/fub/CompleteFromCons.hpp"), ("reflecting wall", "src/boundary_condition/ReflectiveBoundary.cpp"), ("rows of a patch", "include/fub/StateRow.hpp")],
     technique="exhaustive enumeration of patch shapes, layouts, policies, directions and widths on the real code, buffers between inaccessible pages, per-cell oracle",
     note="Perfect gas, passive mixture and ideal gas mixture 1-3 dimensions, shallow water, advection, Burgers; lengths 1-18 (40 thorough). Walls for the three gases (the others have no wall).")
prop(id="R20", title="Boxes, slices, views, rows and chunks address exactly the cells they name",
     statement="Set operations on index boxes, slices and sub-views of patch data, rows of a patch, spans and their parts name exactly the cells their definition says, also when a range is empty or one cell wide. Loading or storing a cell or a chunk of cells of a state transfers every variable of exactly these cells, and iterating visits every cell once. No such operation touches another cell or memory outside of the patch.",
     over=["inputs", "configurations"],
     quant="for every box, slice, layout, embedding, chunk length and state",
     why="tests look at a few shapes; empty ranges, one-cell widths, strides and partial chunks are the cases that go wrong silently",
     files=["include/fub/core/mdspan.hpp", "include/fub/core/span.hpp", "include/fub/PatchDataView.hpp", "include/fub/State.hpp", "include/fub/StateArray.hpp", "include/fub/StateRow.hpp", "include/fub/ForEach.hpp", "include/fub/Equation.hpp"],
     mech=[("slices and layouts", "include/fub/core/mdspan.hpp"), ("boxes and views", "include/fub/PatchDataView.hpp"), ("cells and chunks of states", "include/fub/StateArray.hpp"), ("rows", "include/fub/StateRow.hpp")],
     technique="exhaustive enumeration of boxes, extents, layouts, slices, sub-views, chunk lengths and positions on the real code against explicit index sets and independent addresses",
     note="Extents up to 4 (1d/2d), 3 (3d), 2 (4d); states of the perfect gas (1-3d) and the mixture with 1-3 species (1-2d).")
prop(id="R21", title="Refinement tags mark the steep, buffered and cut cells and no others",
     statement="A gradient criterion tags a cell exactly if the relative jump of a watched quantity to a neighbour in any direction exceeds the tolerance, whether cells are processed one by one or in chunks, and never across covered cells. A tag buffer tags exactly the cells of the patch within its width of a tagged cell; the cut cell criterion tags exactly the cells which are partly covered. Existing tags survive and nothing outside of the patch is written.",
     over=["inputs", "configurations"],
     quant="for every patch shape, direction, position of jumps and tags, width and criterion",
     why="no test covers tagging; a missed tag only shows as a solution that is too coarse somewhere",
     files=["include/fub/tagging_method/GradientDetector.hpp", "src/tagging_method/TagBuffer.cpp", "src/tagging_method/TagCutCells.cpp"],
     mech=[("gradient criterion", "include/fub/tagging_method/GradientDetector.hpp"), ("buffer", "src/tagging_method/TagBuffer.cpp"), ("cut cells", "src/tagging_method/TagCutCells.cpp")],
     technique="exhaustive enumeration of patch shapes, positions of up to two jumps, tag patterns, widths and criteria on the real code against the per-cell definition",
     note="Burgers 1d, advection 2d, perfect gas 1-3d; rows up to 18 cells; all tag patterns up to 9 cells and all pairs of tags beyond.")
prop(id="R22", title="Signed distances of geometries have the right sign and magnitude everywhere",
     statement="The signed distance to a polygon, cone or half space is the Euclidean distance to its boundary, with a sign that tells inside from outside, for every position. Unions, complements, rotated, turned and type-erased geometries and their copies give the distance this definition implies; tubes are open inside and closed at their ends. Reading outlines from a file yields exactly its points in order.",
     over=["inputs", "configurations"],
     quant="for every outline up to the stated size, orientation, start corner, position and combination",
     why="no test covers geometries; a wrong sign behind a corner cuts the wrong cells out of the domain",
     files=["include/fub/geometry/Polygon.hpp", "src/geometry/Polygon.cpp", "include/fub/geometry/Cone.hpp", "src/geometry/Cone.cpp", "include/fub/geometry/RotateAxis.hpp", "include/fub/geometry/Union.hpp", "src/geometry/ExpandTube.cpp"],
     mech=[("polygons", "src/geometry/Polygon.cpp"), ("cones", "include/fub/geometry/Cone.hpp"), ("unions", "include/fub/geometry/Union.hpp"), ("point files", "src/geometry/ExpandTube.cpp")],
     technique="exhaustive enumeration of outlines on grids, orientations, start corners and query positions on the real code against an even-odd rule and segment distances",
     note="All triangles on 4x4, quadrangles and pentagons on 3x3 grids (larger thorough), outlines of up to 40 corners; tubes only where they leave upwards and return downwards.")
prop(id="R23", title="Cut cells: walls let nothing through and open faces keep their fluxes",
     statement="At an embedded wall of any orientation the boundary flux carries no mass and no energy and only a force normal to the wall, equal to the exact wall pressure where the exact solver is used, and gas at rest or moving along the wall stays undisturbed. Faces are split into unshielded and shielded parts which add up to the open part, stabilised fluxes are the convex combination of these parts, and constant fluxes stay constant. Open faces get exactly the fluxes and stable steps of the underlying method, closed faces get none, and only cut cells are written.",
     over=["inputs", "configurations"],
     quant="for every wall normal, state, pattern of covered cells, fraction, row length, layout and direction within the stated sets",
     why="no test runs a cut cell; leaks and wrong forces only show as slow drifts in long simulations",
     files=["include/fub/cutcell_method/KbnStabilisation.hpp", "src/cutcell_method/KbnStabilisation.cpp", "src/cutcell_method/MyStabilisation.cpp", "src/AMReX/cutcell/FillCutCellData.cpp", "src/CutCellData.cpp"],
     mech=[("shielded fractions", "src/AMReX/cutcell/FillCutCellData.cpp"), ("stabilised fluxes", "src/cutcell_method/KbnStabilisation.cpp"), ("wall fluxes", "include/fub/cutcell_method/KbnStabilisation.hpp")],
     technique="exhaustive enumeration of fractions, normals, pairs of states, covered cells and row shapes on the real code, buffers between inaccessible pages, against interval, conservation and exact wave oracles",
     note="Perfect gas in 2d and 3d; HLLE, Godunov and MUSCL-Hancock base methods. Walls which recede faster than the gas can follow are not judged.")
prop(id="R24", title="Second order cut cell slopes and wall states are exact and bounded",
     statement="Next to embedded walls of any orientation the gradients of linear data are exact whichever neighbours are open, and data behind closed faces has no influence. Limited gradients never overshoot a neighbour on the gas side and keep as much of the slope as this allows. States and slopes at the wall, their mirror images and face centroids are those of the linear data and the wall geometry, a flow along a wall stays undisturbed, and closed faces carry no flux.",
     over=["inputs", "configurations"],
     quant="for every wall normal, offset, wedge, pattern of closed faces, difference between neighbours, limiter and direction within the stated sets",
     why="no test runs this method; wrong slopes only lower the order or create spurious extrema next to walls",
     files=["include/fub/cutcell_method/MdGradients.hpp", "src/cutcell_method/AnyMdLimiter.cpp", "include/fub/cutcell_method/HGridReconstruction2.hpp", "include/fub/cutcell_method/MyStabilisation.hpp", "src/CutCellData.cpp"],
     mech=[("gradients", "include/fub/cutcell_method/MdGradients.hpp"), ("limiter", "src/cutcell_method/AnyMdLimiter.cpp"), ("wall states", "include/fub/cutcell_method/HGridReconstruction2.hpp"), ("centroids", "src/CutCellData.cpp")],
     technique="exhaustive enumeration of wall normals, offsets, wedges, closed neighbours, small differences and slopes on the real code, buffers between inaccessible pages, against linear functions, polygon clipping and all vertices of the limiter's linear programme",
     note="Perfect gas in 2d, slopes of primitive and of conservative variables; 24 normals. Cells without an open face in each direction are not judged.")
prop(id="R25", title="Counters, timers and their statistics report exactly what was measured",
     statement="Every measured interval and every added value is counted exactly once under the name it was started with, whatever sequence of starting, moving, assigning and ending timers led there, and count, sum, minimum, maximum, mean and deviation are those of the recorded values. Statistics gathered from several processes combine values of the same counter only, whatever order the processes created their counters in. The printed table, also as written by a scheduled output, shows every counter once with these numbers in the requested unit and its share of the elapsed time.",
     over=["histories", "inputs", "schedules"],
     quant="for every sequence of timer operations and values, every order of creation on every process, every time unit and reference time",
     why="one test adds a few values to one counter on one process; ownership of running timers and orders on several processes are not tested",
     files=["src/counter/Counter.cpp", "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp", "include/fub/counter/CounterRegistry.hpp", "include/fub/output/CounterOutput.hpp"],
     mech=[("running statistics", "src/counter/Counter.cpp"), ("ownership of timers", "src/counter/Timer.cpp"), ("gathering and table", "include/fub/counter/CounterRegistry.hpp"), ("scheduled table", "include/fub/output/CounterOutput.hpp")],
     technique="exhaustive enumeration of operation histories of the real code with simulated time and simulated processes",
     note="The clock and the message passing functions are replaced at link time. The last column of the table is judged to the two digits it prints.")
prop(id="R26", title="Options, log files and input copies arrive complete and destroy nothing",
     statement="An option that is given is taken with its value, one that is absent keeps its default, one of the wrong type is an error, and all processes get what the first one read from the script; a command line with an error or a request for help starts nothing. Every message is written by exactly the processes that are asked to log, line by line with its origin, except for channels that are switched off in the file. Starting a run never destroys an existing log file of any logging process or the input file, in whatever order the processes start, and the copy of the input file is identical to it.",
     over=["inputs", "configurations", "histories", "schedules"],
     quant="for every script and command line within the bounds, every message, every previous content of the directory, every set and order of logging processes",
     why="no test reads a script, logs to a file or starts in a directory that holds results of a previous run",
     files=["src/ext/ProgramOptions.cpp", "include/fub/ext/ProgramOptions.hpp", "src/ext/Log.cpp", "include/fub/ext/Log.hpp", "src/ext/CopyInputFile.cpp", "src/ext/Mpi.cpp"],
     mech=[("options", "src/ext/ProgramOptions.cpp"), ("log files", "src/ext/Log.cpp"), ("copy of the input file", "src/ext/CopyInputFile.cpp"), ("file contents for all processes", "src/ext/Mpi.cpp")],
     technique="exhaustive enumeration of scripts, command lines, messages, directories and process orders of the real code in scratch directories, with simulated processes",
     note="Processes run one after another in every order, each start as one step. Log templates contain the rank. Console output of channels that are switched off is not judged.")
prop(id="R27", title="Replaceable components are values: copies are independent, calls reach them once",
     statement="Boundary conditions, tagging methods, initial data, reconstructions, time integrators and flux methods of any type are held as values: after any sequence of storing, copying, moving and assigning, each holder has exactly its own object, changes to one are not seen by another, and every object is destroyed exactly once. Every call reaches this object exactly once with the given arguments and returns its result; functions a component does not offer, and empty holders, do nothing. Casting back yields the held object for its own type only, and each thread has its own instance of thread local objects, whose reductions cover all threads.",
     over=["histories", "configurations"],
     quant="for every history of operations on two holders, kind of component, number of threads and order of accesses within the bounds",
     why="no test copies, empties or reassigns the components of a solver; a shared object between copies of a solver only shows when a step is retried or a solver is duplicated",
     files=["include/fub/AnyBoundaryCondition.hpp", "include/fub/AnyInitialData.hpp", "include/fub/AnyTaggingMethod.hpp", "include/fub/HyperbolicMethod.hpp", "include/fub/ext/omp.hpp", "include/fub/core/function_ref.hpp"],
     mech=[("components", "include/fub/HyperbolicMethod.hpp"), ("boundary conditions", "include/fub/AnyBoundaryCondition.hpp"), ("initial data", "include/fub/AnyInitialData.hpp"), ("thread local objects", "include/fub/ext/omp.hpp")],
     technique="exhaustive enumeration of operation histories on the real code with components that identify themselves and count their calls",
     note="Two kinds per component, with and without the optional functions; the numbers of threads are replaced at link time, threads act one after another.")
prop(id="R28", title="AMR grids hold exactly the solution a cell by cell reference computes",
     statement="On grids of one, two and more levels the solution, levels, times and cycles after every sequence of steps are those of a plain cell by cell reference: ghost cells hold neighbours, periodic images or interpolated coarse values of the right time, flux corrections make coarse and fine fluxes agree, and the conserved total stays. Neither the division into boxes, the way to loop over cells, copies, a checkpoint and restart, a rejected and repeated step nor another process that rejects it changes the result. Regridding tracks exactly the tagged regions with all required nesting, keeps what is known and fills the rest conservatively, and time steps are the smallest stable one over all levels and processes.",
     over=["histories", "inputs", "configurations"],
     quant="for every refinement pattern and sequence of patterns, box size, refinement ratio, number of levels, splitting, subcycling, loop and step history within the bounds",
     why="the block structured grid code is not compiled without the grid library and not tested at all; wrong ghost cells or flux corrections only show next to particular level boundaries",
     files=["src/AMReX/GriddingAlgorithm.cpp", "src/AMReX/PatchHierarchy.cpp", "src/AMReX/IntegratorContext.cpp", "include/fub/AMReX/FluxMethodAdapter.hpp", "include/fub/AMReX/TimeIntegrator.hpp", "include/fub/AMReX/ForEachFab.hpp", "include/fub/AMReX/ViewFArrayBox.hpp"],
     mech=[("level data", "src/AMReX/IntegratorContext.cpp"), ("grids", "src/AMReX/GriddingAlgorithm.cpp"), ("hierarchy", "src/AMReX/PatchHierarchy.cpp"), ("checkpoints", "src/AMReX/PatchHierarchy.cpp")],
     technique="exhaustive enumeration of refinement patterns, boxes, ratios, histories and refusals with the real grid code in one to three dimensions over a small stand-in of the grid library, against a dense cell by cell reference",
     note="AMReX itself is not installed: a stand-in with its documented semantics replaces it, fresh memory holds NaN, its clustering covers exactly the tagged blocks, and there is one process whose reductions are combined with those of an imagined second one.")
prop(id="R29", title="Physical boundaries fill every ghost cell a step can reach",
     statement="Next to every side of the domain the ghost cells hold what the boundary of this side prescribes - the nearest inner values, the mirrored state with reversed normal momentum or the given constant state - on every level, for every division into boxes and all ways of looping, also in corners between boundaries and next to periodic sides and with boundaries given in any order. The solution is therefore that of a plain reference with these boundaries, and walls conserve the total mass.",
     over=["inputs", "configurations", "histories"],
     quant="for every combination of kinds of boundary on the sides of the domain, order, splitting, division into boxes, loop and refinement next to the walls within the bounds",
     why="boundary conditions of the grid code are neither compiled without the grid library nor tested; unset corner cells only matter for split steps that sweep over ghost cells",
     files=["include/fub/AMReX/boundary_condition/TransmissiveBoundary.hpp", "include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp", "include/fub/AMReX/boundary_condition/ConstantBoundary.hpp", "include/fub/AMReX/boundary_condition/BoundarySet.hpp"],
     mech=[("transmissive", "src/AMReX/boundary_condition/TransmissiveBoundary.cpp"), ("reflective", "include/fub/AMReX/boundary_condition/ReflectiveBoundary.hpp"), ("constant", "include/fub/AMReX/boundary_condition/ConstantBoundary.hpp"), ("sets", "src/AMReX/boundary_condition/BoundarySet.cpp")],
     technique="exhaustive enumeration of boundaries on all sides, orders, boxes and patterns with the real grid code over a small stand-in of the grid library, against a dense cell by cell reference",
     note="Same stand-in as for the grids; fresh memory holds NaN, so that unset ghost cells are noticed.")
prop(id="R30", title="Boundaries impose exactly the flow that was asked for",
     statement="A boundary that prescribes a mass flow lets exactly this mass through wherever a state exists that does, one that prescribes a pressure has this pressure with the entropy, composition and energy balance of the gas inside, and a valve opens and closes at the pressures of its model, asks for its inflow state once per fill with the time since it opened, and is a wall while closed. The inner state they react to is the average over exactly the cells named, over all boxes and processes; only ghost cells of their own side change.",
     over=["inputs", "histories", "configurations"],
     quant="for every inner state, required flow or pressure, side, direction, division into boxes and sequence of pressures over time within the bounds",
     why="these boundaries need the grid library, are not compiled by the project's tests, and their formulas have one branch for each flow regime and side",
     files=["include/fub/equations/RequireMassflow.hpp", "include/fub/NewtonIteration.hpp", "include/fub/AMReX/AverageState.hpp", "src/AMReX/MultiFabUtilities.cpp", "src/AMReX/boundary_condition/MassflowBoundary.cpp", "src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp", "include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp", "src/AMReX/boundary_condition/PressureValveBoundary.cpp"],
     mech=[("mass flow", "src/AMReX/boundary_condition/MassflowBoundary.cpp"), ("pressure", "src/AMReX/boundary_condition/IsentropicPressureBoundary.cpp"), ("valves", "include/fub/AMReX/boundary_condition/GenericPressureValveBoundary.hpp"), ("single waves", "include/fub/equations/RequireMassflow.hpp"), ("averages", "src/AMReX/MultiFabUtilities.cpp")],
     technique="exhaustive enumeration of inner states, requirements, boxes and pressure histories on the real boundary code over a small stand-in of the grid library, against formulas and automata written independently",
     note="Same stand-in as for the grids; reductions are combined with those of an imagined second process. Required flows no boundary state can produce are not judged.")
prop(id="R31", title="Source terms change every cell by exactly their own law",
     statement="A source term advances each cell of a level by the exact solution of its own balance law, regardless of how the level is cut into boxes, of how many ghost cells it has and of which vector lane the cell is computed in: reactions keep density, momentum, passive scalars and the sum of all mole fractions, burn nothing below the switch temperature and release exactly the heat of what was burnt; detailed chemistry is the constant-volume reactor; a varying cross section changes density and pressure along the isentrope and keeps velocity and composition; diffusion is the midpoint rule of its fluxes and conserves everything; ignition happens when, and only when, it is due and the gas at the probe is rich enough, and heats only its ramp. Ghost cells hold the changed values afterwards where the term promises it. Copies of a term behave like the original.",
     over=["inputs", "histories", "configurations"],
     quant="for every state of a cell, number of species and scalars, division into boxes, number of ghost cells, parameter set, time step and, for the ignition, every sequence of times and probe states within the bounds",
     why="no test of the project covers a source term, the reaction laws are vectorised with one branch per regime, and the ignition depends on its history",
     files=["src/equations/perfect_gas_mix/ArrheniusKinetics.cpp", "src/equations/perfect_gas_mix/IgnitionDelayKinetics.cpp", "src/equations/ideal_gas_mix/KineticSourceTerm.cpp", "src/AMReX/AxialSourceTerm.cpp", "include/fub/AMReX/DiffusionSourceTerm.hpp", "src/AMReX/IgniteDetonation.cpp", "include/fub/equations/PerfectGasMix.hpp"],
     mech=[("one-step reaction", "src/equations/perfect_gas_mix/ArrheniusKinetics.cpp"), ("ignition delay", "src/equations/perfect_gas_mix/IgnitionDelayKinetics.cpp"), ("detailed chemistry", "src/equations/ideal_gas_mix/KineticSourceTerm.cpp"), ("cross section", "src/AMReX/AxialSourceTerm.cpp"), ("diffusion", "include/fub/AMReX/DiffusionSourceTerm.hpp"), ("ignition", "src/AMReX/IgniteDetonation.cpp")],
     technique="exhaustive enumeration of layouts, states, parameters, time steps and ignition histories on the real source terms over a small stand-in of the grid library, cell by cell against the laws written independently",
     note="Same stand-in as for the grids, 1d and 2d. The velocity of ignited gas and unit Mach number scaling of the diffusion are not judged. Less than 1e-5 of fuel burns at once, down to a residue of 1.5e-8.")
