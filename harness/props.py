"""Which harness and which of /repo's sources make up each property's check."""
import os
PROPS = {}


def P(pid, harness, srcs=(), **kw):
    PROPS[pid] = dict(harness=list(harness), srcs=list(srcs), **kw)

RUN_SRCS = ["src/RunSimulation.cpp", "src/ext/Version.cpp", "version.cpp", "src/counter/Counter.cpp",
            "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Mpi.cpp"]
P("R01", ["run_loop.cpp"], RUN_SRCS)
P("R02", ["run_retry.cpp"], RUN_SRCS)
P("R03", ["run_output.cpp"], RUN_SRCS)

AMR_SRCS = ["src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp", "src/split_method/StrangSplittingLumped.cpp",
            "src/counter/Counter.cpp", "src/counter/CounterRegistry.cpp",
            "src/counter/Timer.cpp", "src/ext/Mpi.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp"]
P("R04", ["amr_protocol.cpp"], AMR_SRCS, flags="-DPROTOCOL")
P("R05", ["amr_protocol.cpp"], AMR_SRCS, flags="-DERRORS")
P("R06", ["splitting.cpp"], AMR_SRCS[:3])
P("R07", ["source_split.cpp"], AMR_SRCS)
ASAN = "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined"
P("R08", ["patch_update.cpp"], ["src/HyperbolicPatchIntegrator.cpp"])
P("R09", ["patch_flux.cpp"], [])
P("R10", ["riemann.cpp"], ["src/equations/PerfectGas.cpp", "src/equations/ShallowWater.cpp", "src/equations/Burgers.cpp", "src/equations/Advection.cpp"]
  + ["src/equations/perfect_gas/ExactRiemannSolver_%dd.cpp" % d for d in (1, 2, 3)])
EQ_SRCS = ["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/ShallowWater.cpp", "src/equations/Burgers.cpp", "src/equations/Advection.cpp"]
P("R11", ["states.cpp"], EQ_SRCS)
ODE_SRCS = ["src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp", "src/ode_solver/radau.f", "src/ode_solver/decsol.f", "src/ode_solver/dc_decsol.f"]
P("R12", ["reactor.cpp"], ["src/equations/IdealGasMix.cpp", "src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp"] + ODE_SRCS)
P("R13", ["ode.cpp"], ODE_SRCS)
E = "src/equations/"
ALL_D = (1, 2, 3)
def dims(fmt, ds=ALL_D):
    return [E + fmt % d for d in ds]
PG_SIGNALS = dims("perfect_gas/EinfeldtSignalVelocities_%dd.cpp")
MIX_SIGNALS = dims("perfect_gas_mix/EinfeldtSignalVelocities_%dd.cpp")
IGM_SRCS = [E + "IdealGasMix.cpp", E + "ideal_gas_mix/FlameMasterReactor.cpp", E + "ideal_gas_mix/mechanism/Burke2012.cpp"] + ODE_SRCS
P("R14", ["numeric_flux.cpp"], EQ_SRCS + PG_SIGNALS + MIX_SIGNALS + [E + "shallow_water/HllMethod.cpp"] + IGM_SRCS + dims("ideal_gas_mix/EinfeldtSignalVelocities_%dd.cpp"), flags="-DPART=1")
P("R15", ["numeric_flux.cpp"], EQ_SRCS + dims("perfect_gas/ExactRiemannSolver_%dd.cpp") + dims("perfect_gas/GodunovMethod_%dd.cpp")
  + [E + "shallow_water/GodunovMethod.cpp", E + "burgers/GodunovMethod.cpp", E + "advection/GodunovMethod.cpp"] + IGM_SRCS, flags="-DPART=2")
P("R16", ["numeric_flux.cpp"], EQ_SRCS + PG_SIGNALS + MIX_SIGNALS + dims("perfect_gas/HllemMethod_%dd.cpp") + dims("perfect_gas_mix/HllemMethod_%dd.cpp", (1, 2)) + IGM_SRCS, flags="-DPART=3")
MUSCL_PG = dims("perfect_gas/HllemMethod_%dd.cpp") + dims("perfect_gas_mix/HllemMethod_%dd.cpp", (1, 2)) + PG_SIGNALS + MIX_SIGNALS
P("R17", ["third_order.cpp", "muscl_pg.cpp", "muscl_3d.cpp", "muscl_mix.cpp", "muscl_godunov.cpp", "muscl_old.cpp", "muscl_slopes.cpp"], EQ_SRCS + MUSCL_PG + dims("perfect_gas/ExactRiemannSolver_%dd.cpp") + dims("perfect_gas/GodunovMethod_%dd.cpp") + dims("perfect_gas/MusclHancockMethod_%dd.cpp")
  + [E + "perfect_gas/ThirdOrderRungeKuttaMethod_1d.cpp"]
  + dims("perfect_gas/MusclHancockPrimMethod_%dd.cpp") + dims("perfect_gas/MusclHancockCharacteristicMethod_%dd.cpp") + [E + "shallow_water/GodunovMethod.cpp", E + "shallow_water/HllMethod.cpp", E + "burgers/GodunovMethod.cpp", E + "advection/GodunovMethod.cpp"] + IGM_SRCS)
P("R18", ["muscl_igm.cpp"], IGM_SRCS + EQ_SRCS + PG_SIGNALS + dims("ideal_gas_mix/EinfeldtSignalVelocities_%dd.cpp") + dims("ideal_gas_mix/MusclHancockPrimMethod_%dd.cpp") + dims("ideal_gas_mix/MusclHancockCharacteristicMethod_%dd.cpp"))
P("R19", ["patch_complete.cpp"], EQ_SRCS + IGM_SRCS + ["src/boundary_condition/ReflectiveBoundary.cpp"])
P("R20", ["views_core.cpp", "views_state.cpp"], [])
P("R21", ["tagging.cpp"], ["src/tagging_method/TagBuffer.cpp", "src/tagging_method/TagCutCells.cpp"])
P("R22", ["geometry.cpp"], ["src/geometry/%s.cpp" % g for g in ("Cone", "ExpandTube", "Halfspace", "Polygon", "Union")])
CUT_SRCS = ["src/cutcell_method/KbnStabilisation.cpp", "src/cutcell_method/MyStabilisation.cpp", "src/cutcell_method/AnyMdLimiter.cpp", "src/CutCellData.cpp"]
P("R23", ["cutcell.cpp"], EQ_SRCS + IGM_SRCS + PG_SIGNALS + CUT_SRCS + ["src/AMReX/cutcell/FillCutCellData.cpp"] + dims("perfect_gas/ExactRiemannSolver_%dd.cpp") + dims("perfect_gas/HllemMethod_%dd.cpp")
  + dims("perfect_gas/GodunovMethod_%dd.cpp") + dims("perfect_gas/MusclHancockPrimMethod_%dd.cpp"))
P("R24", ["cutcell_grad.cpp"], [E + "PerfectGas.cpp", E + "perfect_gas/EinfeldtSignalVelocities_2d.cpp", E + "perfect_gas/ExactRiemannSolver_2d.cpp", E + "perfect_gas/GodunovMethod_2d.cpp"] + CUT_SRCS)
P("R25", ["counters.cpp"], ["src/counter/Counter.cpp", "src/counter/CounterRegistry.cpp", "src/counter/Timer.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Mpi.cpp"])
P("R26", ["options_log.cpp"], ["src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Mpi.cpp", "src/ext/CopyInputFile.cpp"])
P("R27", ["erased.cpp"], [])
AMREX = "-DAMREX_SPACEDIM=%d -I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "amrex") + " -isystem /usr/include/hdf5/serial"
AMREX_SRCS = ["src/AMReX/%s.cpp" % f for f in ("PatchHierarchy", "GriddingAlgorithm", "IntegratorContext", "TimeIntegrator", "CartesianGridGeometry", "MultiFabUtilities", "ViewFArrayBox", "output/DebugOutput")] + AMR_SRCS + ["src/HyperbolicPatchIntegrator.cpp"]
WALL_SRCS = AMREX_SRCS + ["src/AMReX/boundary_condition/%s.cpp" % f for f in ("BoundarySet", "TransmissiveBoundary")] + ["src/boundary_condition/ReflectiveBoundary.cpp"]
P("R28", ["amrex_grid.cpp"], WALL_SRCS, parts={"%dd" % d: AMREX % d for d in ALL_D})
P("R29", ["amrex_grid.cpp"], WALL_SRCS, parts={"%dd" % d: AMREX % d + " -DWALLS" for d in ALL_D})
FLOW_SRCS = WALL_SRCS + ["src/AMReX/boundary_condition/%s.cpp" % f for f in ("IsentropicPressureBoundary", "MassflowBoundary", "PressureValveBoundary")] + ["src/equations/perfect_gas_mix/PlenaControl.cpp"] + EQ_SRCS + IGM_SRCS
P("R30", ["boundary_flow.cpp"], FLOW_SRCS, parts={"%dd" % d: AMREX % d for d in (1, 2)})
SOURCE_SRCS = WALL_SRCS + [E + "perfect_gas_mix/ArrheniusKinetics.cpp", E + "perfect_gas_mix/IgnitionDelayKinetics.cpp", E + "ideal_gas_mix/KineticSourceTerm.cpp"] + EQ_SRCS + IGM_SRCS
TUBE_SRCS = ["src/AMReX/%s.cpp" % f for f in ("AxialSourceTerm", "DiffusionSourceTerm", "IgniteDetonation")]
P("R31", ["source_terms.cpp"], SOURCE_SRCS, parts={"%dd" % d: AMREX % d for d in (1, 2)}, part_srcs={"1d": TUBE_SRCS})
