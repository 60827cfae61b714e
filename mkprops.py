import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Every solved instant conserves mass and energy in all five volumes",
 "Whenever the state equations are solved successfully, the returned mass flows, heat flows and time derivatives satisfy the mass balance and the energy balance of each of the five control volumes (compression space, cold heat exchanger, regenerator, hot heat exchanger, expansion space) for the given volumes, fluid properties and wall heat flows. This holds for every exported matrix decomposition (none returns a vector that does not solve a non-singular system) and for every non-zero normalisation enthalpy, which must not influence the answer.",
 ["inputs"],"all control-volume inputs (volumes, densities, energies, enthalpies, derivatives, volume rates, wall heats, normalisation enthalpy != 0), all initial flow-direction hints, all three decompositions",
 "The tests snapshot the ten solved numbers for two input files; they never check a balance, and an error in a term that is small or zero for those files (du_dP_T is 0 for an ideal gas, dV_dt or Q_dot terms) is invisible.",
 ["src/state_equations/solver.rs","src/state_equations/inputs.rs"],
 [("matrix assembly","src/state_equations/solver.rs: System::new"),("enthalpy entries","src/state_equations/solver.rs: MatrixStencil::create_matrix"),("unknown vector to solution","src/state_equations/solver.rs: System::solve"),("decompositions","src/state_equations/solver.rs: LU, QR, SvdDefault")],
 observe=["Engine::run values (m_dot_*, Q_dot_*) for user-defined fluids and components"])
p("C02","Enthalpy is carried by the upstream volume, or the solve fails",
 "In every accepted solution, the enthalpy carried across each of the four interfaces is that of the volume the fluid is leaving, as determined by the sign of the solved mass flow itself (the regenerator contributes its cold-end enthalpy on its cold side and its hot-end enthalpy on its hot side; zero flow counts as positive). A solution whose flow signs disagree with the directions used to compute it is never returned: the solve either finds consistent directions within a bounded number of attempts or reports an error.",
 ["inputs","histories"],"all inputs and all flow-direction hints left behind by earlier solves",
 "The two snapshot inputs produce only all-negative flows, so 15 of the 16 direction combinations, the hint carried over between instants and the give-up path are never exercised.",
 ["src/state_equations/solver.rs","src/state_equations/flow_direction.rs","src/state_equations/integrator.rs"],
 [("fixed point on flow directions","src/state_equations/solver.rs: solve"),("upwind selection","src/state_equations/flow_direction.rs: Direction::select, FlowDirection::from_solution"),("entries","src/state_equations/solver.rs: MatrixStencil::create_matrix")],
 observe=["Engine::run values"])
p("C03","Each volume's balance uses that volume's own properties and heat flows",
 "At any instant of the cycle, the balance of each volume uses the fluid properties evaluated at the common pressure and at that volume's own temperature (compression and expansion spaces: their current temperatures; exchangers: their gas temperatures; regenerator: its average temperature, plus its cold-end and hot-end enthalpies) and the volume reported by that volume's component. The compression and expansion spaces use the drive's current volume and volume rate, and the heat leaving each of them is its thermal parasitic plus the conduction through its thermal resistance to the neighbouring heat exchanger (none when the resistance is infinite).",
 ["inputs","configurations"],"all fluids, components, engine temperatures, pressures, times and conditions",
 "Only one engine (ideal-gas hydrogen, adiabatic spaces, no parasitics) is ever run by the tests and only its convergence is asserted; a property evaluated at a neighbouring temperature or a dropped wall heat flow still converges.",
 ["src/engine/run.rs","src/engine/state.rs"],
 [("inputs per volume","src/engine/run.rs: Run::new, comp_inputs, chx_inputs, regen_inputs, hhx_inputs, exp_inputs, calculate_inputs")],
 observe=["calls received by a user-defined fluid and components","Engine::run values"])
p("C04","The reported series covers exactly one cycle at the requested resolution",
 "A successful run reports exactly the requested number of time points (two or more), equally spaced (up to rounding) from time zero to one full period of the drive. Each point's flows solve the state equations at that point's own time, pressure and temperatures, and the pressure and temperatures evolve from their initial values under the derivatives those equations give, integrated with the requested relative and absolute tolerances.",
 ["inputs","configurations"],"all drive frequencies and resolutions of 2 or more up to 10^6, all engines",
 "Tests use one or two period/resolution pairs; losing the final point depends on the rounding of period and step for particular frequencies and resolutions.",
 ["src/state_equations/integrator.rs","src/state_equations/cycle.rs","src/engine/state.rs"],
 [("integration span and output spacing","src/state_equations/integrator.rs: Integration::try_from"),("derivatives handed to the integrator","src/state_equations/integrator.rs: IntegrationState::system"),("values at points","src/state_equations/integrator.rs: into_state_values"),("series split into columns","src/engine/state.rs: From<Vec<state_equations::Values>> for Values")],
 observe=["RunResults.values.*"])
p("C05","Success means cyclic steady state from the requested pressure",
 "If a run succeeds, the reported cycle starts at the requested initial pressure, and over it the compression-space and expansion-space temperatures both return to their starting values within the inner-loop absolute and relative tolerances. If no such cycle is found within the allowed number of inner iterations, or an integration fails, the run reports an inner-loop error instead of values.",
 ["inputs","configurations","histories"],"all engines, hints, tolerances and iteration limits, every outer iteration",
 "Tests check one engine that converges and one artificial cycle that does not; they never inspect the returned cycle.",
 ["src/state_equations/cycle.rs","src/state_equations/integrator.rs","src/engine.rs","src/types.rs"],
 [("successive substitution","src/state_equations/cycle.rs: find_steady_state"),("acceptance test","src/state_equations/integrator.rs: is_converged; src/types.rs: ConvergenceTolerance::is_converged"),("error mapping","src/engine.rs: Engine::run")],
 observe=["Engine::run result"])
p("C06","Success means the engine temperatures agree with the components",
 "If a run succeeds, every reported engine temperature (exchangers and the three regenerator temperatures) agrees, within the outer-loop absolute and relative tolerances, with the one recomputed from the approach temperatures the components give for the reported cycle's own average conditions; sink and source temperatures are exactly the requested ones. If this is not reached within the allowed number of outer iterations the run reports an outer-loop error.",
 ["inputs","configurations","histories"],"all components (built-in or user-defined), fluids, tolerances, iteration limits and iteration histories",
 "The only engine test uses fixed approaches, which converge on the first pass whatever the update does.",
 ["src/engine.rs","src/engine/state.rs","src/types.rs"],
 [("outer loop","src/engine.rs: Engine::run"),("state update and acceptance","src/engine/state.rs: State::update, Temperatures::is_converged, RegenTemp::is_converged"),("conditions shown to components","src/engine/state.rs: State::chx, regen, hhx, ws")],
 state=[("engine state","temperatures, pressure, flows used for the next inner solve","src/engine/state.rs: State")],
 observe=["Engine::run result","approach() calls received by user components"])
p("C07","Reported averages are the averages of the reported cycle",
 "The pressure average, minimum, maximum and initial value, the average mass flow rates and the average heat flow rates reported with a run are those of the same run's time series: time averages by the trapezoidal rule over the cycle, a mass flow being the magnitude of the mean of the two interface flows, and the cold and hot heat flows including conduction between working space and exchanger when its thermal resistance is finite.",
 ["inputs","histories"],"all time series and thermal resistances; every successful run whatever number of outer iterations it took",
 "Unit tests check the formulas on a few hand-made series, but not that a run reports the averages of its own series; no test looks at a finished run.",
 ["src/engine/state.rs","src/api.rs"],
 [("pressure","src/engine/state.rs: Pressure::from_values"),("mass flows","src/engine/state.rs: MassFlows::from_values, Values::m_dot_avg"),("heat flows","src/engine/state.rs: HeatFlows::from_values"),("quadrature","src/engine/state.rs: integrate"),("state handed out on convergence","src/engine/state.rs: State::update")],
 observe=["RunResults.pressure, mass_flow, heat_flow"])
p("C08","Gas temperatures follow from approaches and imbalance",
 "The cold exchanger gas is warmer than the sink by its approach, the hot exchanger gas is colder than the source by its approach, and the regenerator ends differ from the exchanger gas temperatures by the regenerator approach, the imbalance widening only the hot side when positive and only the cold side when negative. The regenerator average temperature is the logarithmic mean taken half an approach inside both ends, so for approaches small enough to leave a positive temperature difference it lies strictly between the cold and hot exchanger gas temperatures.",
 ["inputs"],"all sink and source temperatures, approaches and imbalances of either sign",
 "Tests only construct temperatures with zero approaches and zero imbalance; no value is asserted.",
 ["src/engine/state.rs"],
 [("temperatures","src/engine/state.rs: Temperatures::from_approach"),("regenerator","src/engine/state.rs: RegenImbalance::regen_temp"),("initial state","src/engine/state.rs: State::new_hint")],
 observe=["RunResults.temperature"])
p("C09","Working-space volume rates are the exact derivatives of the volumes",
 "For every built-in drive that is implemented (sinusoidal and rhombic), every parameter set for which the volumes are defined, and every time, the reported rate of change of each working-space volume is the time derivative of the reported volume.",
 ["inputs","configurations"],"all drive parameters (valid geometry for the rhombic drive) and all times",
 "One sinusoidal drive is checked at five instants where most terms vanish; the rhombic drive has no test.",
 ["src/ws/sinusoidal_drive.rs","src/ws/rhombic_drive.rs"],
 [("sinusoidal volumes","src/ws/sinusoidal_drive.rs: volumes"),("rhombic volumes","src/ws/rhombic_drive.rs: volumes")],
 observe=["WorkingSpaces::volumes"])
p("C10","Working-space volumes are periodic and stay within their geometric range",
 "The volumes and rates given by a built-in drive repeat with the period of the drive's frequency; each volume is never below its clearance volume and attains it at some point of the cycle. For the sinusoidal drive each volume never exceeds clearance plus swept volume, the compression volume is largest at time zero, and the expansion space leads by exactly the phase angle in degrees.",
 ["inputs","configurations"],"all positive frequencies, non-negative swept volumes, all phase angles, all rhombic geometries that can rotate (connecting rod longer than eccentricity plus crank radius; for the lower bound of the compression volume, eccentricity at least the crank radius), all times",
 "Tested for one sinusoidal parameter set (90 degrees) at quarter cycles only; rhombic drive untested.",
 ["src/ws/sinusoidal_drive.rs","src/ws/rhombic_drive.rs"],
 [("sinusoidal volumes","src/ws/sinusoidal_drive.rs: volumes"),("rhombic volumes","src/ws/rhombic_drive.rs: volumes")],
 observe=["WorkingSpaces::volumes"])
p("C11","Fluid derivative properties are the derivatives of the fluid's own functions",
 "For every available gas, temperature and pressure, the density derivatives with respect to pressure and temperature are the partial derivatives of the density function, and the internal-energy derivatives with respect to pressure and temperature are the partial derivatives of the internal-energy function. Density follows the ideal-gas law with the gas's own specific gas constant (molar gas constant over molar mass).",
 ["inputs"],"all temperatures > 0 and pressures > 0, helium and hydrogen",
 "One (T, P) point per gas is snapshotted; a snapshot records whatever the code gives and never compares a derivative with its function.",
 ["src/fluid/ideal_gas.rs"],
 [("property functions","src/fluid/ideal_gas.rs: impl Fluid for IdealGas"),("coefficients","src/fluid/ideal_gas.rs: IdealGas::new, poly")],
 observe=["Fluid trait methods of fluid::IdealGas"])
p("C12","Enthalpy, internal energy, heat capacity and p/rho are mutually consistent",
 "For every available gas, the heat capacity is the temperature derivative of enthalpy at constant pressure, enthalpy vanishes at the reference temperature (250 K) and internal energy there is zero or minus pressure over density, and enthalpy equals internal energy plus pressure over density.",
 ["inputs"],"all temperatures > 0 and pressures > 0, helium and hydrogen",
 "The snapshots at 500 K and the zero check at 250 K pin values without relating them to each other.",
 ["src/fluid/ideal_gas.rs"],
 [("enthalpy and energy","src/fluid/ideal_gas.rs: enth, inte, cp, enth_coefs")],
 observe=["Fluid trait methods of fluid::IdealGas"])
p("C13","Every component does exactly what its configuration says",
 "Building an engine from a parsed configuration gives components that report exactly the configured volume, hydraulic resistance, approach (or the conductance, through its approach law), parasitic powers, frequency, phase angle, geometry and thermal resistances, each value reaching its own role and no other, for every component model that is implemented, and each model is built as the model that was asked for.",
 ["configurations"],"all values of all configuration fields of all implemented component models and all combinations of models",
 "Tests compare parsed configuration structs only; the conversion into components is never executed by a test, and several fields are equal (often zero) in the configurations used.",
 ["src/engine.rs","src/chx/fixed_approach.rs","src/chx/fixed_conductance.rs","src/hhx/fixed_approach.rs","src/hhx/fixed_conductance.rs","src/regen/fixed_approach.rs","src/regen/fixed_conductance.rs","src/ws/sinusoidal_drive.rs","src/ws/rhombic_drive.rs"],
 [("component selection","src/engine.rs: From<ComponentsConfig> for Components"),("per component","From<Config> impls in chx, hhx, regen, ws")],
 observe=["trait methods of the components of Components::from(config)"])
p("C14","Legacy and current configurations mean the same run",
 "Translating a legacy configuration keeps every component model and its parameters, selects the same fluid and fluid model, keeps sink temperature, source temperature and initial pressure, and keeps each tolerance and the time resolution in its own place with 20 iterations for both loops; and run settings and run inputs built from a configuration carry each tolerance, iteration limit, resolution, temperature and pressure unchanged. The fluid used by a run is the configured one.",
 ["configurations"],"all values of all fields of legacy and current configurations, all fluids and models",
 "One legacy file is compared, in which the ODE and outer-loop tolerances are equal and abs equals rel everywhere; the conversions to run settings and inputs are never checked.",
 ["src/config.rs","src/types.rs","src/fluid.rs","src/chx.rs","src/hhx.rs","src/regen.rs","src/ws.rs","src/api.rs"],
 [("legacy translation","src/config.rs: From<Legacy> for Config; LegacyConfig::into in chx, hhx, regen, ws, fluid"),("settings","src/types.rs: From impls"),("fluid choice","src/api.rs: run_engine")],
 observe=["Config::from(Legacy)","RunSettings::from, RunInputs::from","run_engine"])
p("C15","Power, torque and efficiency are derived correctly from the cycle",
 "For any finished run, ideal indicated power is the drive frequency times the trapezoidal cycle integral of the reported pressure times the total working-space volume rate; indicated power uses the reported compression-space and expansion-space pressures with their own volume rates; shaft power subtracts both working spaces' mechanical parasitics; net power further subtracts the cold and hot heat exchangers' mechanical parasitics; shaft torque is shaft power over angular speed; efficiency is net power over heat input.",
 ["inputs","configurations"],"all engines, series of any length, component parasitics and frequencies",
 "No test evaluates the power chain of any engine.",
 ["src/performance.rs","src/api.rs"],
 [("powers","src/performance.rs: Powers::new, dV_dts, integrate"),("performance","src/performance.rs: From<&Engine> for Performance")],
 observe=["RunResults.power, shaft_torque, efficiency"])
p("C16","Heat input and rejection account for every heat flow exactly once",
 "For any finished run, heat input is the cycle-average heat from the hot exchanger to the gas (including conduction into the expansion space through a finite thermal resistance) plus the external thermal losses of hot exchanger, regenerator and expansion space; heat rejection is the cycle-average heat from the gas to the cold exchanger (including conduction from the compression space) plus flow-friction loss, the working spaces' mechanical losses and the same external losses. The difference between input and rejection is therefore the net gas-side heat less ideal-indicated-to-shaft losses, independent of the external losses.",
 ["inputs","configurations"],"all engines, series, thermal resistances (finite or infinite) and parasitics",
 "No test evaluates heat totals; in the one engine that is run all losses and resistances are trivial.",
 ["src/performance.rs"],
 [("heat totals","src/performance.rs: Heats::new")],
 observe=["RunResults.heat_flow.input, rejection"])
p("C17","Flow friction shifts the two working-space pressures symmetrically",
 "At each reported instant, the total pressure drop is the sum over the three exchangers of hydraulic resistance times the volumetric flow (mean of the two interface mass flows over the gas density at that exchanger's own temperature and the current pressure); the compression-space pressure is the common pressure plus half of it and the expansion-space pressure minus half of it. With zero resistances both equal the common pressure.",
 ["inputs","configurations"],"all series, resistances, temperatures and fluids",
 "One exchanger is tested with two equal points; the assembly over exchangers and the signs are not.",
 ["src/performance.rs"],
 [("pressure drops","src/performance.rs: PressuresWithDrops::new, calculate_hx_pressure_drop")],
 observe=["RunResults.values.P_c, P_e"])
p("C18","Results report each engine quantity under its own name, index-aligned",
 "Every field of the run results holds the engine quantity it is documented to hold (temperatures, pressures, average flows, heat totals, powers, imbalance, series), unchanged (except efficiency.overall, a documented placeholder), and all series of the results have the same length and order as the solved time points.",
 ["inputs"],"all finished engines",
 "No test builds run results.",
 ["src/api.rs","src/engine/state.rs"],
 [("mapping","src/api.rs: From<Engine> for RunResults"),("columns","src/engine/state.rs: From<Vec<state_equations::Values>> for Values")],
 observe=["RunResults"])
p("C19","Fixed-conductance exchangers obey the effectiveness-NTU law",
 "For positive conductance, mass flow and heat capacity, the approach of a fixed-conductance cold or hot exchanger is the heat flow per capacity rate times (1/effectiveness - 1) with effectiveness 1 - exp(-NTU), has the sign of the heat flow and vanishes as conductance grows; a fixed-conductance regenerator's approach is the exchanger temperature difference times 1 - effectiveness with effectiveness NTU/(2+NTU), strictly between zero and that difference. Fixed-approach exchangers give their configured approach, initially and always.",
 ["inputs","configurations"],"all positive conductances, capacity rates, heat flows and temperatures",
 "No test constructs a fixed-conductance component.",
 ["src/chx/fixed_conductance.rs","src/hhx/fixed_conductance.rs","src/regen/fixed_conductance.rs","src/chx/fixed_approach.rs","src/hhx/fixed_approach.rs","src/regen/fixed_approach.rs"],
 [("approach laws","approach() of the FixedConductance and FixedApproach components")],
 observe=["ColdHeatExchanger/HotHeatExchanger/Regenerator::approach"])
p("C20","The convergence test never accepts a change that is too large or not a number",
 "The convergence test accepts a pair of values only if both values are finite numbers and the change is strictly below the absolute tolerance and strictly below the relative tolerance times the old value's magnitude (up to one rounding of the quotient); it rejects NaN, infinities, a zero old value under a finite relative tolerance, and non-positive or NaN tolerances, and accepts a change that is clearly below both (at most half of each, for ordinary magnitudes). This holds for every pair of machine numbers, bit for bit.",
 ["inputs"],"all 64-bit floating-point values of old, new and the tolerances",
 "No unit test of the convergence test exists; NaN and infinity only arise in failing runs.",
 ["src/types.rs"],
 [("criterion","src/types.rs: ConvergenceTolerance::is_converged")],
 observe=["ConvergenceTolerance::is_converged"])
p("C21","No run panics: failures are reported as errors",
 "For every combination of implemented component models (sinusoidal and rhombic working spaces, fixed-approach and fixed-conductance exchangers) and ideal-gas fluids, every exported matrix decomposition, a time resolution of at least two and any iteration limits (zero included), tolerances and operating conditions, running an engine never panics - when it ends, it ends with results or with a RunError: conditions under which the state equations have no consistent solution, at any instant the integrator visits, become an inner-loop error; exhausted iterations become the error of their loop; and building the RunResults of a finished run does not panic. Documented not-yet-implemented models (todo!) and lengths or iteration numbers at the machine's limits are excluded.",
 ["inputs","configurations","histories"],"all conditions, settings, engines of the implemented models; arbitrary iterations of both loops and arbitrary points of the integration",
 "The tests run a handful of well-behaved engines; about one in four random plausible configurations reaches an instant whose equations have no solution.",
 ["src/state_equations/integrator.rs","src/state_equations/cycle.rs","src/state_equations/solver.rs","src/engine.rs","src/engine/run.rs","src/engine/state.rs","src/performance.rs","src/api.rs"],
 [("failed solves","src/state_equations/integrator.rs, cycle.rs"),("iteration limits","src/engine.rs, src/state_equations/cycle.rs"),("results","src/api.rs: From<Engine> for RunResults")],
 observe=["run_engine","Engine::run","RunResults::from"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
