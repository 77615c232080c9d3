#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
SOLV="src/state_equations/solver.rs"; INTG="src/state_equations/integrator.rs"; CYC="src/state_equations/cycle.rs"
RUN="src/engine/run.rs"; ST="src/engine/state.rs"; ENG="src/engine.rs"; PERF="src/performance.rs"; API="src/api.rs"
FD="src/state_equations/flow_direction.rs"; TY="src/types.rs"; CFG="src/config.rs"; IG="src/fluid/ideal_gas.rs"; FL="src/fluid.rs"
SIN="src/ws/sinusoidal_drive.rs"; RH="src/ws/rhombic_drive.rs"
ENGINES="every engine (any drive, heat exchangers, working fluid, operating conditions and solver settings) whose run converges"
ONE="The tests run one hydrogen engine and only check that it converges; the state equations are only snapshotted at two fixed inputs"

prop("C01","Mass of working gas is conserved over the whole cycle",
 "In every converged engine the total mass of gas in the five volumes (compression space, cold exchanger, regenerator, hot exchanger, expansion space), computed from the reported pressure and temperatures, is the same at every reported time. At every reported time the four reported mass flows account for the change of mass in each volume: flow in minus flow out is the rate of storage, with positive flow from the cold to the hot side.",
 ["inputs","configurations"], ENGINES+"; every reported time",
 ONE+", so conservation is never checked for any other volume phase, fluid, flow pattern or time.",
 [SOLV,RUN,INTG,"src/state_equations/inputs.rs"],
 [("mass balance rows of the Ax=b system",SOLV),("density and its derivatives per volume",RUN)],
 ["engine.values.m_dot_*","engine.values.{P,T_c,T_e}","engine.components.ws.volumes"])
prop("C02","Energy of the whole gas is conserved at every instant",
 "In every converged engine, at every reported time, the rate of change of the total internal energy of the gas equals the heat received from the hot exchanger, minus the heat given to the cold exchanger and to the regenerator, minus the heat lost through the walls of the two working spaces, minus the pressure-volume work. Accumulated from the start of the cycle to any reported time, the same ledger balances against the internal energy computed from the reported pressure and temperatures.",
 ["inputs","configurations"], ENGINES+" (accumulated ledger: thermodynamically consistent fluids); every reported time",
 ONE+"; no test adds up energy.",
 [SOLV,RUN,INTG],[("energy balance rows of the Ax=b system",SOLV),("internal energy derivatives per volume",RUN)],
 ["engine.values.Q_dot_*","engine.values.{P,T_c,T_e}"])
prop("C03","Each volume's energy balance uses the upstream gas",
 "In every converged engine, at every reported time, each of the five volumes separately satisfies its own energy balance, where gas crossing an interface carries the enthalpy of the volume it leaves: the compression space, cold exchanger, regenerator cold end, regenerator hot end, hot exchanger or expansion space, at the temperature the engine reports for it. Reversing a flow switches the carried enthalpy to the other side.",
 ["inputs","configurations"], ENGINES+"; every reported time and every combination of flow directions that occurs",
 ONE+"; both snapshots have all four flows in the same direction, so the reverse branches are never exercised.",
 [SOLV,FD,INTG,RUN],[("flow direction selection",FD),("MatrixStencil interface enthalpies",SOLV),("iteration on flow directions",SOLV)],
 ["engine.values.m_dot_*","engine.values.Q_dot_*"])
prop("C04","The results of an engine run satisfy the first law over the cycle",
 "For every converged engine with a thermodynamically consistent fluid, reported heat input minus reported heat rejection equals shaft power plus the net heat the gas gave to the regenerator over the cycle, up to the change of stored energy that the solver tolerance allows and the error of averaging over the reported time points. Likewise, heat through the hot exchanger minus heat through the cold exchanger minus net regenerator heat equals ideal indicated power.",
 ["inputs","configurations"], ENGINES+" and has a consistent fluid, including finite wall resistances, parasitic losses and pressure drops",
 "No test looks at any number in the results of a run.",
 [PERF,ST,API,RUN],[("Heats and Powers",PERF),("HeatFlows::from_values",ST)],
 ["RunResults.heat_flow","RunResults.power"])
prop("C05","Working spaces exchange heat with their exchanger through the resistance",
 "The gas in the compression (expansion) space exchanges heat with the cold (hot) exchanger at a rate equal to the temperature difference divided by the configured thermal resistance, always from hot to cold, and an infinite resistance means no heat exchange. This heat changes the gas temperature in that space, is included in the reported exchanger heat flows, heat input and rejection, and as the resistance goes to zero the space stays at its exchanger's temperature.",
 ["inputs","configurations"], "every engine and every pair of positive thermal resistances, finite or infinite, the same or different on both sides",
 "Every tested engine has infinite resistances.",
 [RUN,ST,PERF,"src/ws.rs"],[("Q_dot of the working spaces",RUN),("HeatFlows::from_values",ST),("Heats::new",PERF)],
 ["engine.values.{T_c,T_e}","engine.state.heat_flow","RunResults.heat_flow"])
prop("C06","A converged run is a cyclic steady state at the requested pressure",
 "When a run succeeds, the reported cycle starts at exactly the requested initial pressure, and the compression and expansion space temperatures at the end of the cycle each agree with their value at the start within both the absolute and the relative inner loop tolerance. Pressure, mass flows and heat flows at the end of the cycle then agree with those at the start as closely as those temperatures do.",
 ["inputs","configurations"], "every engine and every combination of inner loop tolerances",
 "The only engine test uses one tolerance and never looks at the ends of the cycle.",
 [CYC,INTG,TY],[("find_steady_state",CYC),("Integration::is_converged",INTG)],
 ["engine.values.{P,T_c,T_e}","engine.values.m_dot_*"])
prop("C07","Engine temperatures are a fixed point of the exchanger approaches",
 "In every converged engine the cold exchanger is at the sink temperature plus its approach, the hot exchanger at the source temperature minus its approach, the regenerator's cold and hot ends one regenerator approach inside the cold and hot exchanger temperatures, and the regenerator average is the logarithmic mean of the temperatures midway between each exchanger and the adjacent regenerator end. Re-evaluating the approaches of the exchangers at the reported cycle reproduces the reported temperatures within both the absolute and relative outer loop tolerance.",
 ["inputs","configurations"], "every engine, with fixed or state-dependent approaches, positive, zero or negative, source hotter or colder than sink",
 "The only engine test uses one set of fixed approaches; state-dependent approaches are never iterated in a test.",
 [ST,ENG],[("Temperatures::from_approach and RegenImbalance::regen_temp",ST),("State::update",ST),("outer loop",ENG)],
 ["engine.state.temp","RunResults.temperature"])
prop("C08","Iteration limits are honoured and failures are reported by loop",
 "A run never uses more than the configured number of inner or outer iterations: it succeeds exactly when convergence is reached within both limits, otherwise it returns the error of the loop that failed. A limit of n outer iterations means the approaches are re-evaluated at most n times, a limit of n inner iterations means that convergence is tested on at most n cycles per outer iteration, and raising a limit never changes a run that already succeeded.",
 ["inputs","histories"], "every engine, every pair of iteration limits (including zero) and every sequence of approaches an exchanger may return",
 "Tests run with one fixed, sufficient limit and never reach an error.",
 [ENG,CYC,ST],[("outer loop and RunError",ENG),("find_steady_state loop",CYC)],
 ["Result of Engine::run","calls received by the components"])
prop("C09","The cycle is reported on exactly the requested uniform time grid",
 "A successful run reports every time series with exactly the requested number of points, at equally spaced times from zero to exactly one period of the drive (the reciprocal of its frequency), both ends included. All series have the same length.",
 ["inputs","configurations"], "every number of points from two up, every frequency, every engine",
 "Tests look at a grid for one period (0.5 s) and a few point counts; rounding makes the last point appear or not depending on both.",
 [INTG,CYC,API,PERF],[("Integration::try_from",INTG),("conversion to engine values",ST)],
 ["engine.values","RunResults.values"])
prop("C10","Reported summaries agree with the reported time series",
 "In the results of every run the average, maximum, minimum and initial pressure, the average mass flow through each exchanger (the time average of the magnitude of the mean of the flows at its two ends) and the average heat flow of each exchanger (including the heat its working space exchanges with it) are those of the reported time series. Every quantity appears in the results under its own name, unchanged from the engine that produced it.",
 ["inputs","configurations"], ENGINES,
 "No test reads any summary.",
 [ST,API,ENG],[("Pressure, MassFlows and HeatFlows::from_values",ST),("RunResults::from",API)],
 ["engine.state.{pres,mass_flow,heat_flow}","RunResults"])
prop("C11","Power, torque, heat and efficiency follow their definitions",
 "For every engine, ideal indicated power is frequency times the cycle integral of pressure over total volume change, indicated power uses the pressure of each space including exchanger pressure drops, shaft power subtracts the mechanical parasitics of both spaces, net power further subtracts those of both exchangers, torque is shaft power divided by angular velocity and mechanical efficiency is net power divided by heat input. Heat input is the heat the gas receives on the hot side plus the thermal parasitics of hot exchanger, regenerator and expansion space; heat rejection is the heat the gas gives up on the cold side plus pressure drop losses, mechanical parasitics of the spaces and those same thermal parasitics.",
 ["inputs","configurations"], "every engine, every combination of parasitics and hydraulic resistances, and every time series an engine can hold",
 "No test computes performance; the only related test covers one pressure drop value.",
 [PERF,API],[("Performance::from",PERF)],["RunResults.{power,heat_flow,shaft_torque,efficiency}"])
prop("C12","Exchanger pressure drops are split between the spaces and lossy only",
 "The reported pressure in the compression (expansion) space is the common pressure plus (minus) half the total pressure drop, which is the sum over the three exchangers of hydraulic resistance times mean mass flow divided by the gas density at that exchanger's temperature and the common pressure. Hydraulic resistance never changes the thermodynamic cycle: temperatures, pressure, mass flows and heat flows of the series are identical whatever the resistances, and the space pressures equal the common pressure when all are zero.",
 ["inputs","configurations"], "every engine and every triple of non-negative hydraulic resistances",
 "One unit test multiplies two numbers for one exchanger; signs, halving, sums, densities and independence are untested.",
 [PERF],[("PressuresWithDrops",PERF)],["RunResults.values.{P_c,P_e}"])
prop("C13","Sinusoidal drive volumes follow crank kinematics",
 "At any time the sinusoidal drive's compression (expansion) volume is its clearance plus half its swept volume times one plus the cosine of the crank angle (plus the phase angle in degrees for expansion), so volumes stay between clearance and clearance plus swept volume and repeat every period. The reported rate of change is always the time derivative of the reported volume.",
 ["inputs","configurations"], "every drive geometry, frequency, phase angle and time",
 "One test checks a handful of times for one drive with a 90 degree phase and never the derivative's values off the quarter points.",
 [SIN],[("SinusoidalDrive::volumes",SIN)],["WorkingSpaces::volumes"])
prop("C14","Rhombic drive volumes follow the linkage geometry",
 "At any time the rhombic drive's compression volume is its clearance plus the area of the piston times the distance of its two yokes from their closest approach, and its expansion volume is its clearance plus the area of the displacer times the displacer's distance from its top position, as given by crank radius, eccentricity and connecting rod length. Both volumes repeat every period, reach their clearance as minimum, and the reported rate of change is the time derivative of the reported volume.",
 ["inputs","configurations"], "every feasible rhombic geometry (eccentricity at least the crank radius, so that the cranks don't meet; piston and displacer of different diameters), frequency and time",
 "The rhombic drive has no test at all.",
 [RH],[("RhombicDrive::volumes",RH)],["WorkingSpaces::volumes of a rhombic configuration"])
prop("C15","Fluid property derivatives match the properties they differentiate",
 "For every temperature and pressure, the reported derivatives of density with pressure and temperature and of internal energy with pressure and temperature equal the derivatives of the reported density and internal energy, and the specific heat equals the derivative of enthalpy with temperature at constant pressure. Density follows the ideal gas law with each gas's own constant, enthalpy and energy don't depend on pressure, the specific heats differ by the gas constant, and the specific heats of helium and hydrogen match their literature values.",
 ["inputs"], "every fluid, temperature and pressure in the range of the gas models",
 "Tests look at one state per fluid and at the reference temperature, where snapshots pin whatever the code returned.",
 [IG,FL],[("IdealGas",IG)],["Fluid trait methods of IdealGas"])
prop("C16","Enthalpy equals internal energy plus pressure over density",
 "For every fluid, temperature and pressure, enthalpy equals internal energy plus pressure divided by density, so that gas flowing out of a volume at constant pressure carries exactly the energy the volume loses.",
 ["inputs"], "every fluid, temperature and pressure in the range of the gas models",
 "Tests check both properties at the reference temperature separately, never their relation.",
 [IG],[("IdealGas::inte and enth",IG)],["Fluid trait methods of IdealGas"])
prop("C17","Exchanger models obey their heat transfer laws",
 "A fixed approach exchanger or regenerator always returns its configured approach; a fixed conductance cold or hot exchanger returns the approach for which the effectiveness relation 1-exp(-UA/C) holds between the heat flow, the capacity rate C of the gas and the constant sink or source temperature; a fixed conductance regenerator returns the exchanger temperature difference times 1/(1+NTU/2). Every model reports the volume, hydraulic resistance and parasitics it was given, whatever the state.",
 ["inputs","configurations"], "every component parameter set and every state a component can be shown",
 "No test calls any component method.",
 ["src/chx/fixed_approach.rs","src/chx/fixed_conductance.rs","src/hhx/fixed_approach.rs","src/hhx/fixed_conductance.rs","src/regen/fixed_approach.rs","src/regen/fixed_conductance.rs"],
 [("approach",'src/chx/fixed_conductance.rs')],["ColdHeatExchanger, HotHeatExchanger and Regenerator trait methods"])
prop("C18","A configuration runs exactly the engine it describes",
 "Every value of a configuration reaches the component, operating condition or solver setting it names, in the same units, and nothing else changes it: running a configuration gives exactly the results of building that engine by hand. Both entry points that take a configuration agree with each other, and each default configuration describes the same component as that component's default.",
 ["configurations","inputs"], "every configuration of the implemented models and fluids",
 "Tests only compare one deserialised configuration with defaults; none is turned into components or run.",
 [API,"src/lib.rs",ENG,TY,SIN,RH,"src/chx/fixed_approach.rs","src/hhx/fixed_conductance.rs","src/regen/fixed_conductance.rs"],
 [("From<Config> of components",ENG),("From<SolverConfig>, From<ConditionsConfig>",TY),("run_engine",API),("run_from_config","src/lib.rs")],
 ["Components built from ComponentsConfig","run_engine","run_from_config"])
prop("C19","A legacy configuration means the same as its modern equivalent",
 "For every legacy configuration, with any of its fluids, drives, exchangers and regenerators, conversion yields exactly the modern configuration with the same values, each legacy name mapped to its modern counterpart and both iteration limits set to the default of 20. Legacy configurations that differ in any value convert to different modern configurations.",
 ["configurations"], "every legacy configuration over all models",
 "One test covers one model per component with default values, so swapped or dropped values that equal defaults go unnoticed.",
 [CFG,FL,TY,"src/ws.rs","src/chx.rs","src/regen.rs","src/hhx.rs"],
 [("From<Legacy>",CFG),("LegacyConfig::into","src/chx.rs")],["Config: From<Legacy>, PartialEq"])
prop("C20","TOML, JSON and YAML configurations are equivalent and complete",
 "The same configuration written as TOML, JSON or YAML deserialises to equal configurations holding exactly the written values. A configuration with a missing value, an unknown model or a value of the wrong type is rejected with an error instead of being accepted with some other value. Infinite thermal resistances can be written as text in every format, and the order in which keys are written or read doesn't matter.",
 ["configurations"], "every configuration over all models and every single omission or corruption of it",
 "One TOML and one JSON text are parsed; errors are never tested.",
 [CFG,FL,TY,"src/ws.rs","src/chx.rs","src/hhx.rs","src/regen.rs"],
 [("Deserialize implementations",CFG)],["Deserialize of Config and Legacy"])
prop("C21","Engines obey similarity in pressure, size and speed",
 "For an ideal gas engine, scaling the initial pressure scales all pressures, mass flows, heat flows and powers by the same factor and leaves temperatures and efficiency unchanged; scaling all volumes, or the frequency, likewise scales flows and powers but not pressures. This requires wall resistances, conductances, hydraulic resistances and parasitics to be scaled accordingly.",
 ["inputs","configurations"], "every converged engine and every positive scale factor",
 "Tests never relate two runs to each other.",
 [RUN,SOLV,PERF,ST],[("normalisation of the state equations",SOLV),("tolerances of the decompositions",SOLV)],["RunResults of two runs"])
prop("C22","The matrix decomposition doesn't affect the results",
 "Running the same engine with the LU, QR or SVD decomposition gives the same temperatures, pressures, flows and powers within numerical accuracy, whatever the size, speed, pressure or fluid of the engine.",
 ["configurations","inputs"], "every engine and every pair of the exported decompositions",
 "Tests compare the three solvers at two fixed states of one engine size.",
 [SOLV,"src/state_equations.rs"],[("MatrixDecomposition implementations",SOLV)],["Engine::run::<LuSolver|QrSolver|SvdDefaultSolver>"])
prop("C23","A run never panics and never returns values that aren't finite",
 "Whatever engine of the implemented models is run, however extreme or degenerate its volumes, temperatures, pressures, resistances, tolerances, time resolution or iteration limits, the run returns either an engine whose every reported series, temperature, pressure, flow and ideal power is finite, or an error. It never panics.",
 ["inputs","configurations"], "extreme and degenerate engines and settings (numbers up to 1e100 in magnitude, zero, infinite and undefined ones; speeds positive), including ones that can't converge",
 "Tests run one well behaved engine.",
 [SOLV,INTG,CYC,ST,ENG,PERF],[("error propagation",CYC),("finite checks",SOLV),("log_mean",ST)],["Result of Engine::run, RunResults"])
prop("C24","Convergence requires both the absolute and the relative change to be small",
 "Two successive values count as converged exactly when the magnitude of their difference is smaller than the absolute tolerance and its ratio to the old value is smaller in magnitude than the relative tolerance; values that aren't finite never count as converged.",
 ["inputs"], "every pair of values of any sign and size and every pair of tolerances",
 "No test calls the predicate directly; the engine test cannot tell which of the two tolerances was applied.",
 [TY],[("ConvergenceTolerance::is_converged",TY)],["ConvergenceTolerance::is_converged"])
prop("C25","Time resolution only changes how finely the cycle is sampled",
 "For engines with fixed approaches the number of reported points has no influence on the cycle: temperatures of the exchangers are the same and series sampled at different resolutions agree at every common time. Averages and powers converge as the resolution increases.",
 ["inputs","configurations"], "every engine with fixed approaches and every pair of resolutions with common times",
 "Tests use one resolution per engine; an integrator test compares two point counts at one constant input.",
 [CYC,INTG],[("dense output of the integrator",INTG)],["engine.values at two resolutions"])
prop("C26","The reported cycle is the solution of the engine's physics",
 "The pressure and temperature trajectories, mass flows and heat flows reported by a converged run agree with an independent solution of conservation of mass and energy for five well-mixed volumes at a common pressure, started at the reported initial state, within the accuracy requested of the integrator. When that independent solution settles to a cyclic steady state well within the iteration limits, the run converges too.",
 ["inputs","configurations"], "every engine of the documented models; every reported time",
 ONE+"; trajectories are only checked for constant inputs.",
 [SOLV,INTG,CYC,RUN,ENG],[("state equations",SOLV),("Dopri5 integration",INTG),("find_steady_state",CYC)],["engine.values","Result of Engine::run"])
prop("C27","Components see the engine's actual average state",
 "The state shown to each exchanger when its approach is evaluated, and to every component when results are computed, is the one of the reported cycle: its own temperature and that of its sink, source or neighbours, average pressure, gas density and specific heat at that temperature and pressure, its own average mass flow, and its own average heat flow. The drive is shown the pressure of the cycle.",
 ["inputs","configurations","histories"], "every engine and every history of approaches its components return",
 "No test observes what components are shown.",
 [ST,ENG,PERF],[("State::chx, regen, hhx, ws",ST),("State::update",ST)],["arguments of component trait methods"])
prop("C28","The converged engine doesn't depend on the initial guess",
 "The initial approaches suggested by the exchangers are only a starting point: engines that differ in them alone, and both converge, agree in all results within the requested tolerances. A fixed approach component's guess is its approach, so that engines made only of them converge at once.",
 ["inputs","configurations"], "every engine and every initial approach that keeps temperatures positive",
 "The initial approach is a constant in every test.",
 [ST,ENG],[("State::new_hint",ST),("State::update",ST)],["RunResults for different initial approaches"])
prop("C29","Runs are reproducible and independent of each other",
 "Running the same engine again gives bit for bit the same results, whatever engines were run before or are running on other threads.",
 ["histories","schedules"], "every sequence of engine runs in one process, sequential or on several threads",
 "Tests run a single engine once.",
 [ENG,RUN,INTG,API],[("no shared state between runs",ENG)],["Engine::run, run_engine"])
prop("C30","Engines obey mirror and time shift symmetry",
 "Exchanging the roles of the two sides of an engine (drive volumes and resistances, exchangers with opposite approaches, sink and source) gives the mirrored cycle: equal pressures, exchanged temperatures, and flows of opposite direction. Starting the clock of the same engine at another point of its cycle, with the pressure it has there, gives the same cycle, averages and powers shifted in time.",
 ["inputs","configurations"], "every engine with fixed approaches and every time shift",
 "Tests never relate two runs to each other.",
 [SOLV,FD,RUN,ST,PERF],[("state equations",SOLV),("flow direction iteration",SOLV)],["engine.values and RunResults of two runs"])
prop("C31","The cycle depends on the exchangers through their temperatures only",
 "Engines whose exchangers end up at the same temperatures have the same cycle, whichever models, conductances or approaches lead to them: replacing the conductances of a converged engine by the fixed approaches they converge to changes nothing, and conductances beyond all need are no different from approaches of zero. Flow resistances and parasitic losses never change the cycle, only the results derived from it.",
 ["inputs","configurations"], "every engine of the documented models, every choice of exchangers to replace and every size of losses",
 "Tests run one engine with fixed approaches and never relate engines with different exchanger models.",
 [ENG,ST,RUN],[("State::update",ST),("exchanger models in the outer loop",ENG),("inputs of the state equations",RUN)],["engine.values, engine.state and RunResults of two engines"])
prop("C32","Engines obey similarity in temperature and gas properties",
 "Scaling all temperatures and approaches of an engine, or the gas constant and specific heats of its gas, leaves pressures, heat flows, powers and efficiency unchanged, scales gas temperatures with the temperatures and mass flows inversely, once conductances, thermal resistances and the non-ideal terms of the gas are scaled accordingly. The energy of the gas's reference state, as long as enthalpy and internal energy share it, has no influence at all.",
 ["inputs","configurations"], "every engine with a thermodynamically consistent gas, every factor and every reference energy",
 "Tests use the two built-in gases at fixed temperatures, none of them relates two runs.",
 [SOLV,RUN,ENG,ST,PERF],[("energy balances of the state equations",SOLV),("temperatures and averages of the engine",ST)],["engine.values and RunResults of two engines with user defined gases"])
prop("C33","An engine state follows from cycle, approaches and regenerator imbalance",
 "Updating the state of an engine from any cycle gives the averages and extremes of that cycle and asks each exchanger for its approach at these averages and the previous temperatures. The new temperatures follow from sink, source and approaches, where the regenerator's approach is that of its closer end and the other end is further off by the size of the imbalance, which is kept. The state counts as converged, and keeps its temperatures, exactly when all five temperatures change by less than both tolerances.",
 ["inputs","history"], "every cycle, previous state, imbalance of either sign, approach and tolerance",
 "Tests update one constant state, with a balanced regenerator, and never look at the outcome.",
 [ST],[("State::update",ST),("RegenImbalance::regen_temp",ST)],["State::update and RegenImbalance::regen_temp of engine.state"])
prop("C34","Drives may depend on the engine's pressure",
 "Every cycle of a run is calculated with the frequency, the volumes and the thermal resistances that the drive has at one and the same pressures: constant at the requested initial pressure for the first cycle, and the average, largest, smallest and initial pressure of the preceding cycle for all others. The reported cycle is therefore the one of a drive which is like this at any pressure, and so are the results once the pressures of the drive have settled.",
 ["inputs","history"], "every drive whose frequency, volumes and resistances depend on the pressures it is shown",
 "The drives of the crate, and of the tests, ignore the pressure.",
 [RUN,ST,ENG],[("Run::new",RUN),("State::ws and State::update",ST),("outer loop",ENG)],["calls received by the drive, engine.values, engine.state and RunResults"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
