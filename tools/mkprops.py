"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe="component outputs / residuals / sub-Jacobians returned through the OpenMDAO API", hook="none"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=hook)))


WHYD = ("Tests call check_partials at one or two sample points and default options; most branches, option settings, "
        "zero entries and node counts are never differentiated, and a wrong derivative only shows as slow or wrong optimization.")

p("D01", "Math utilities supply exact derivatives",
  "For every admissible input, shape and option setting, the derivatives that the reusable math building blocks (vector add/subtract, multiply/divide, concatenate/split, interpolation, selection, min/max, integration, differentiation, derived-variable relabelling) hand to the optimizer equal the true derivatives of what they compute. Every derivative entry they declare as absent is truly zero.",
  ["inputs", "configurations"], "all real inputs in each branch; vector sizes, lengths, scaling factors, divide flags, time-step modes and segment lists within the stated bounds",
  WHYD, ["openconcept/utilities/math", "openconcept/utilities/selector.py", "openconcept/utilities/linearinterp.py", "openconcept/utilities/dvlabel.py"],
  [("analytic partials", "compute_partials / linearize / declare_partials of every component under openconcept/utilities")])
p("D02", "Mission and atmosphere models supply exact derivatives",
  "For every admissible flight condition, in every branch and at every node count, the derivatives supplied by the mission-analysis and atmosphere models equal the true derivatives of their outputs or residuals. Entries declared absent are truly zero.",
  ["inputs", "configurations"], "all real inputs within each model's physical domain, every regime (troposphere, blend, stratosphere; clipped and unclipped), node counts within the bounds",
  WHYD, ["openconcept/mission", "openconcept/atmospherics"],
  [("analytic partials", "compute_partials / linearize in openconcept/mission/*.py and openconcept/atmospherics/*.py")])
p("D03", "Aerodynamics, geometry and stability models supply exact derivatives",
  "For every admissible input and option setting, the derivatives supplied by the drag, maximum-lift, wave-drag, wing-planform, wetted-area, surface-mesh and tail-sizing models equal the true derivatives of what they compute. Entries declared absent are truly zero.",
  ["inputs", "configurations"], "all real inputs in each model's domain, each flap / tail / section-count / mesh-size configuration within the bounds",
  WHYD, ["openconcept/aerodynamics", "openconcept/geometry", "openconcept/stability"],
  [("analytic partials", "compute_partials in openconcept/aerodynamics, geometry, stability")])
p("D04", "Propulsion, energy storage and cost models supply exact derivatives",
  "For every admissible input and option setting, the derivatives supplied by the motor, generator, turboshaft, propeller, power-splitter, turbofan scaling, battery, hydrogen-tank and cost models equal the true derivatives of what they compute. Entries declared absent are truly zero.",
  ["inputs", "configurations"], "all real inputs in each model's domain, each rule / option / node count within the bounds",
  WHYD, ["openconcept/propulsion", "openconcept/energy_storage", "openconcept/costs"],
  [("analytic partials", "compute_partials / linearize in openconcept/propulsion, energy_storage, costs")])
p("D05", "Thermal models supply exact derivatives",
  "For every admissible input and option setting, the derivatives supplied by the heat-exchanger, duct, chiller, cold-plate, motor- and battery-cooling, heat-pipe, pump, hose and manifold models equal the true derivatives of their outputs or residuals. Entries declared absent are truly zero.",
  ["inputs", "configurations"], "all positive temperatures, flows and dimensions, in each branch (which side limits, choked or not), option values and node counts within the bounds",
  WHYD, ["openconcept/thermal"],
  [("analytic partials", "compute_partials / linearize in openconcept/thermal/*.py")])
p("D06", "Weight models supply exact derivatives",
  "For every admissible aircraft description and option setting, the derivatives supplied by the component weight estimates (turboprop, jet transport, blended wing body) equal the true derivatives of the estimated weights. Entries declared absent are truly zero.",
  ["inputs", "configurations"], "all positive inputs and option values (load factors, fudge factors, tail and gear configuration)",
  WHYD, ["openconcept/weights"], [("analytic partials", "compute_partials in openconcept/weights/*.py")])

p("I01", "Time integration is exact for polynomial rates and linear in the rates",
  "Integrating a rate that is a polynomial of low degree in time (up to quadratic for the finite-difference rule, cubic end-point accuracy for Simpson) returns exactly the polynomial's integral at every node plus the initial value, for each method, each way of giving the time step and each list of segments. The result is linear in the rates and in the initial value.",
  ["inputs", "configurations"], "all coefficient values, all initial values and durations, node counts and segment lists within the bounds",
  "Tests integrate a handful of fixed functions with fixed step sizes and compare to a tolerance.",
  ["openconcept/utilities/math/integrals.py"], [("integration matrices", "first_deriv, multistep integrator construction in openconcept/utilities/math/integrals.py")])
p("I02", "Integrator time modes agree and states chain across segments",
  "Giving the integrator a duration, a step size or start and end times that describe the same interval produces the same states. The first state of the first segment equals the given initial value, each segment begins at the value the previous one ended with, and the reported final value equals the last state.",
  ["inputs", "configurations"], "all rates, durations, initial values; both integration rules; segment lists and node counts within the bounds",
  "Tests cover one node count and mostly the duration mode with one segment.",
  ["openconcept/utilities/math/integrals.py"], [("Integrator", "openconcept/utilities/math/integrals.py"), ("OldIntegrator", "openconcept/utilities/math/integrals.py")])
p("I03", "Numerical differentiation is exact for polynomials up to its order",
  "The time-differentiation block returns exactly the derivative of any polynomial up to its stated order at every node, in every segment, for any step size. Segments do not influence each other.",
  ["inputs", "configurations"], "all polynomial coefficients and step sizes; orders, node counts and segment lists within the bounds",
  "Tests evaluate it on a few fixed functions with a tolerance.",
  ["openconcept/utilities/math/derivatives.py"], [("FirstDerivative", "openconcept/utilities/math/derivatives.py")])

p("A01", "Atmosphere model is continuous, positive and obeys the gas law",
  "Temperature, pressure and density vary continuously with altitude across every layer boundary, as do the slopes of temperature and pressure, stay positive, and never increase with altitude for pressure. Density always equals pressure over gas constant times temperature, including any temperature offset from standard day.",
  ["inputs"], "every altitude in the supported range and every temperature offset",
  "Tests sample a few altitudes on either side of the boundary with coarse tolerances.",
  ["openconcept/atmospherics"], [("standard atmosphere", "openconcept/atmospherics/*.py")])
p("A02", "Airspeeds, Mach number and dynamic pressure are mutually consistent",
  "At any flight condition, dynamic pressure equals one half density times true airspeed squared and also one half sea-level density times equivalent airspeed squared; Mach number times the local speed of sound equals true airspeed. Converting between true and equivalent airspeed and back returns the starting speed.",
  ["inputs", "configurations"], "every altitude, airspeed, offset; both directions of conversion; any node count in the bound",
  "Tests compare to tabulated values at single points.",
  ["openconcept/atmospherics"], [("ComputeAtmosphericProperties", "openconcept/atmospherics/compute_atmos_props.py")])

p("A03", "Surrogate drag polars use the solver's data for the right geometry and condition",
  "For every flight condition, geometry option and call history, the OpenAeroStruct-based drag polars pass the solver the mesh, thickness ratios, atmosphere, speed and Reynolds number of the requested condition; fit the surrogate to training data of the current geometry, never left over from another geometry or a failed evaluation; choose the angle of attack at which the lift coefficient equals the requested one; and report drag as dynamic pressure times reference area times the sum of wing and non-wing drag coefficients.",
  ["inputs", "histories", "configurations"], "every geometry option, mesh, flight condition; every history of up to four evaluations of one or two polars sharing the training table, with failures",
  "Tests run one geometry at one or two points against stored numbers; stale or misplaced training data show only for particular histories and geometries.",
  ["openconcept/aerodynamics/openaerostruct"], [("VLMDataGen", "openconcept/aerodynamics/openaerostruct/drag_polar.py"), ("VLMDragPolar", "openconcept/aerodynamics/openaerostruct/drag_polar.py"), ("AerostructDragPolar", "openconcept/aerodynamics/openaerostruct/aerostructural.py")])

p("M01", "Flight equations balance forces",
  "The computed accelerations satisfy Newton's second law along and across the flight path for any thrust, drag, lift, weight, braking and path angle, and in steady flight the lift coefficient supports exactly the weight component normal to the path. Ground-roll, rotation and climb-out relations agree with the same force balance.",
  ["inputs"], "all forces, masses, speeds and angles in the domain",
  "Tests check a few numbers against themselves.",
  ["openconcept/mission"], [("flight dynamics components", "openconcept/mission/phases.py, takeoff and helper modules")])
p("M02", "Mission phases join without gaps",
  "In every mission profile, each integrated quantity (time-like, range, altitude, fuel, and every vehicle state that is tagged for integration) starts a phase with exactly the value the previous phase ended with, except altitudes the profile deliberately prescribes (ground roll, and the start of climb, reserve climb and loiter). No linked phase pair is skipped and no state is lost when a phase or state is added.",
  ["configurations", "inputs"], "all state values; the supplied mission profiles with and without takeoff and reserve; vehicle models with extra tagged states",
  "Tests run a few missions and check end results only.",
  ["openconcept/mission"], [("trajectory linking", "openconcept/mission/trajectories.py"), ("profiles", "openconcept/mission/profiles.py")])
p("M03", "A converged mission flies the requested profile",
  "Whenever the mission's equations are satisfied, total range equals the requested range, climb and descent end at the requested altitudes, vertical speed and airspeed follow the requested values, and thrust equals what the steady or accelerated force balance demands. Reserve and loiter segments close the same way. A profile without a takeoff starts its climb at the given takeoff altitude. A basic mission with a ground roll ends it at the given takeoff speed.",
  ["inputs", "configurations"], "all requested ranges, altitudes, speeds and all vehicle responses (thrust, drag, weight as arbitrary functions)",
  "Tests check fuel burn of specific aircraft; the closure must hold for every vehicle.",
  ["openconcept/mission"], [("profiles and phase groups", "openconcept/mission/profiles.py, phases.py")])
p("M04", "Balanced-field takeoff equations close",
  "Whenever the takeoff equations are satisfied, the accelerate-go and accelerate-stop distances are equal at the decision speed unless the decision speed is limited by rotation speed, and the takeoff, transition and obstacle distances add up. Rotation and climb-out speed are the stated multiples of stall speed, the same in every takeoff phase, and the transition arc and climb-out use the speed and angle at their own end of the rotation.",
  ["inputs"], "all distances, speeds and angles in the domain",
  "Only single converged takeoffs are tested.",
  ["openconcept/mission"], [("BFL and takeoff components", "openconcept/mission/phases.py, profiles.py")])

p("M05", "Tagged rates become states over the phase's own time",
  "In every integrator group, each output of a component tagged for integration becomes exactly one state with the declared name, units, default value, limits and promotion; the state is the integral of that output from the state's initial value. Every integrator inside a phase, at any depth of nesting, promoted or not and in whatever time units, runs over that phase's duration, and the order or number of the tags and of the components does not matter. The group's helpers for sums and scaled copies give exactly that sum or multiple, and tags on a copy work alike.",
  ["inputs", "configurations"], "all rates, initial values and durations; all combinations and orders of the tags, layouts of components and nestings",
  "The tests integrate one tagged rate in one phase with hand-picked numbers.",
  ["openconcept/mission", "openconcept/utilities"], [("IntegratorGroup, PhaseGroup", "openconcept/mission/mission_groups.py"), ("Integrator", "openconcept/utilities/math/integrals.py")])

p("E01", "Power-conversion components conserve energy",
  "For every motor, generator, power splitter, propeller and battery setting, power in equals useful power out plus rejected heat, scaled by the stated efficiency, and the reported utilisation is the ratio of power to rating. The split follows the requested fraction or fixed power and the two outputs plus losses always add up to the input.",
  ["inputs", "configurations"], "all throttles, ratings, efficiencies and split settings, including powers below the fixed-split threshold",
  "Tests check individual numbers at sample throttles.",
  ["openconcept/propulsion", "openconcept/energy_storage"], [("SimpleMotor/SimpleGenerator/PowerSplit", "openconcept/propulsion"), ("SimpleBattery/SOCBattery", "openconcept/energy_storage/battery.py")])
p("E02", "Propulsion assemblies account for every engine, motor and load",
  "In every supplied propulsion architecture, total thrust, fuel flow, electrical load, weight and rejected heat equal the sum over the installed units, with a failed unit contributing exactly as the failure flag says. When the architecture's equations are satisfied, electric power drawn equals battery plus generator power delivered and the requested hybrid split is met. Each sizing input an architecture takes reaches the unit it names.",
  ["inputs", "configurations"], "all throttles, ratings, failure flags and component responses",
  "Tests run single aircraft.",
  ["openconcept/propulsion/systems"], [("architectures", "openconcept/propulsion/systems/*.py")])
p("E03", "Stored energy is bookkept exactly",
  "Battery state of charge falls by exactly the integral of the drawn power over the usable energy, fuel used is the integral of fuel flow and aircraft weight falls by the same amount. No choice of initial charge, load history or duration breaks the balance.",
  ["inputs", "histories"], "all load histories and durations at the stated node counts",
  "Tests use constant loads.",
  ["openconcept/energy_storage", "openconcept/mission"], [("SOCBattery", "openconcept/energy_storage/battery.py"), ("fuel and weight integration", "openconcept/mission")])
p("E04", "Engine scaling laws hold exactly",
  "A scaled turbofan delivers thrust and burns fuel in proportion to the rating ratio, and burning hydrogen instead of kerosene preserves the fuel's heating power. Turboshaft fuel flow and engine or cost breakdowns follow their stated linear laws at every input.",
  ["inputs", "configurations"], "all ratings, engine counts, fuel types and arbitrary engine-deck responses",
  "Tests sample a few ratings.",
  ["openconcept/propulsion", "openconcept/costs"], [("RubberizedTurbofan", "openconcept/propulsion/rubberized_turbofan.py"), ("SimpleTurboshaft", "openconcept/propulsion"), ("costs", "openconcept/costs")])
p("E05", "Engine decks are fitted to their own tables",
  "Each engine deck (CFM56, N+3, hybrid N+3) is fitted to every point its data tables contain (those with positive thrust or fuel flow, except the fast sea-level points the CFM56 table leaves out) exactly once, each with its own throttle, altitude, Mach number and hybrid power, and each output with its own values in the documented units; points the tables mark as absent are never used. No two outputs share a fit or the file a fit is stored in.",
  ["inputs"], "all table contents of the supplied shapes, including absent points anywhere",
  "The tests evaluate the fitted decks at a few points of the supplied tables.",
  ["openconcept/propulsion"], [("CFM56", "openconcept/propulsion/cfm56.py"), ("N3, N3Hybrid", "openconcept/propulsion/N3.py")])

p("H01", "Hydrogen tank conserves mass and its geometry is consistent",
  "For every tank shape and fill level, the computed volumes, areas and weights agree with one another, filling to the reported level returns the contained volume, and hydrogen leaving the tank is removed from the contained mass one for one. Adding insulation or vapor shields never changes what is stored.",
  ["inputs", "configurations"], "all tank radii, lengths, fill levels, pressures",
  "Tests sample a few shapes.",
  ["openconcept/energy_storage"], [("LH2 tank", "openconcept/energy_storage/hydrogen")])

p("T01", "Heat exchangers conserve energy and never beat the ideal limit",
  "For every flow, temperature and geometry, heat given up by the hot stream equals heat gained by the cold stream, effectiveness stays between zero and one, outlet temperatures stay between the inlet temperatures and the overall conductance is the series combination of both sides including each side's own fouling. Swapping which stream limits changes nothing in these statements.",
  ["inputs", "configurations"], "all positive flows, temperatures, conductances, fouling factors; either stream limiting",
  "Tests check one operating point with zero fouling.",
  ["openconcept/thermal/heat_exchanger.py"], [("NTU chain", "openconcept/thermal/heat_exchanger.py")])
p("T02", "Coolant-loop elements conserve mass and energy",
  "Splitting and merging flows conserves mass and enthalpy, every cooled component passes to the coolant exactly the heat it does not store, a coolant reservoir warms exactly by the enthalpy it absorbs, and pumps and hoses report power, pressure drop and weight consistent with their definitions. This holds for quasi-steady and time-accurate modes alike.",
  ["inputs", "configurations"], "all temperatures, flows, masses, heats; both modes",
  "Tests check a few numbers.",
  ["openconcept/thermal"], [("manifold, cold plates, reservoir, pump, hose", "openconcept/thermal/*.py")])
p("T03", "Ducted cooling flow satisfies the compressible-flow relations",
  "Static and total temperature and pressure in a duct obey the isentropic relations for every Mach number, heat addition raises total temperature by heat over mass flow times specific heat, mass flow is identical at every converged station and the net force is the momentum and pressure difference between inlet and nozzle. Along the duct total pressure changes only by the stated recoveries, dynamic-pressure losses and pressure jumps, each acting on the station it is stated for, and the inlet loses none unless a ram recovery is stated. An unchoked nozzle exits at ambient pressure and a choked one at Mach one.",
  ["inputs"], "all Mach numbers, temperatures, pressures, flows",
  "Tests check single points.",
  ["openconcept/thermal/ducts.py"], [("duct components", "openconcept/thermal/ducts.py")])
p("T04", "Heat pump and heat pipe respect the first law and their limits",
  "For every setting of a heat pump, heat rejected on the hot side equals heat removed on the cold side plus shaft power, full bypass hands each coolant stream across unchanged with no electrical load, and intermediate bypass interpolates linearly. A bundle of heat pipes carries, weighs and is limited by exactly the pipe count times a single pipe.",
  ["inputs"], "all temperatures, powers, bypass settings and pipe counts",
  "Tests check single points.",
  ["openconcept/thermal/chiller.py", "openconcept/thermal/heat_pipe.py"], [("chiller", "openconcept/thermal/chiller.py"), ("heat pipe", "openconcept/thermal/heat_pipe.py")])

p("W01", "Empty weight is exactly the sum of its parts",
  "For every aircraft description, operating empty weight equals the sum of all component weights with the stated structural and total adjustment factors, no component counted twice or left out, with any multiplier applied to exactly the component it names. Per-engine weights scale with the number of engines.",
  ["inputs", "configurations"], "all component weights, factors, engine counts; each aircraft class",
  "Tests compare a total for one aircraft with a tolerance.",
  ["openconcept/weights"], [("roll-ups", "weights_jet_transport.py, weights_turboprop.py, weights_BWB.py, weights_twin_hybrid.py")])
p("R01", "Drag build-up adds up and lift-induced drag follows the polar",
  "Total drag equals dynamic pressure times area times the sum of zero-lift, flap, gear and induced contributions for every condition, with clean and takeoff configurations differing exactly by the added items, and any multiplier applied once. Skin-friction and form-factor contributions are non-negative, lift at the stall speed carries the weight, and wave drag and maximum lift follow their stated relations.",
  ["inputs", "configurations"], "all flight conditions and geometry; both configurations",
  "Tests compare one aircraft's total.",
  ["openconcept/aerodynamics"], [("PolarDrag", "openconcept/aerodynamics/aerodynamics.py"), ("ParasiteDragCoefficient", "drag_jet_transport.py, drag_BWB.py")])
p("G01", "Wing planform quantities are geometrically consistent",
  "Aspect ratio, span, area, mean chord, taper and sweep computed from section or planform data describe the same wing for every admissible shape, including when a subset of sections is selected. Generated surface meshes have exactly the requested area, span, taper and quarter-chord sweep at every mesh size.",
  ["inputs", "configurations"], "all section positions and chords, section subsets, mesh sizes within the bounds",
  "Tests check one planform.",
  ["openconcept/geometry", "openconcept/aerodynamics/openaerostruct/mesh_gen.py"], [("wing planform", "openconcept/geometry/wing_planform.py"), ("meshes", "openconcept/aerodynamics/openaerostruct/mesh_gen.py")])
p("G02", "Tail sizing reproduces the requested volume coefficient",
  "For every wing and tail arm, the sized horizontal and vertical tail areas give back the tail-volume coefficient that was requested. Larger tail arms never give larger tails.",
  ["inputs"], "all positive wing areas, chords, spans and tail arms", "Tests check one aircraft.",
  ["openconcept/stability"], [("tail volume coefficient sizing", "openconcept/stability/tail_volume_coefficient_sizing.py")])

p("U01", "Vector arithmetic blocks compute exactly the stated expression",
  "For any number of equations and operands, any mix of scalar and vector sizes, lengths, scaling factors, divide flags and units, the add/subtract and multiply/divide blocks output the stated elementwise combination. Minimum and maximum blocks return an element of the input that bounds all others and sums or products promoted through the helper functions are the ones requested.",
  ["inputs", "configurations"], "all values; operand counts, sizes and lengths within the bounds",
  "Tests cover few shapes and no scalar-times-length or mixed-size derivative.",
  ["openconcept/utilities/math"], [("AddSubtractComp, ElementMultiplyDivideComp, MaxComp, MinComp", "openconcept/utilities/math")])
p("U02", "Concatenate, split, interpolate and select preserve their data",
  "Splitting a concatenation returns the original vectors in order, linear interpolation reaches both given end values with equal steps, and selection returns at every node exactly the chosen input. This holds for every list of lengths, data shape and selector pattern.",
  ["inputs", "configurations"], "all values, length lists, selector patterns within the bounds",
  "Tests check one configuration.",
  ["openconcept/utilities"], [("VectorConcatenateComp/VectorSplitComp", "openconcept/utilities/math/combine_split_comp.py"), ("LinearInterpolator", "openconcept/utilities/linearinterp.py"), ("SelectorComp", "openconcept/utilities/selector.py")])
p("U03", "Aircraft data reach the model unchanged",
  "Values and units read from an aircraft data dictionary arrive at the model inputs unchanged for every nesting and unit, and relabelling a variable preserves its value and units exactly. Nothing is silently dropped.",
  ["inputs", "configurations"], "all values and the shapes and units within the bounds", "Tests check a few values.",
  ["openconcept/utilities"], [("DictIndepVarComp", "openconcept/utilities/dict_indepvarcomp.py"), ("DVLabel", "openconcept/utilities/dvlabel.py")])
p("U04", "Setting a model up again changes nothing",
  "Setting up the same model object a second time gives the same variables, units, connections, values and derivatives as the first time. In particular no unit conversion is lost and no state or phase link is dropped or duplicated.",
  ["histories", "configurations"], "all input values; two consecutive set-ups of each building block and mission",
  "Tests set each model up once.",
  ["openconcept/utilities", "openconcept/mission"], [("setup methods", "openconcept/utilities/math/*.py, openconcept/mission/*.py")])

p("V01", "Plots show the computed trajectories and loads",
  "The trajectory plots draw, for every quantity and every run, the requested variable in the requested units against the abscissa, phase by phase in the given order, each on its own axes with its own label, for any number of quantities and any figure layout. The wing plots draw every mesh point at its place, the right half as the mirror image of the left, and the force contours show at each point the force per area of the panels that meet there.",
  ["inputs", "configurations"], "all plotted values, phase lists, layouts, wing meshes with any spacing, force directions and halves",
  "The tests only check that plotting a default wing does not raise.",
  ["openconcept/utilities"], [("plot_trajectory, plot_trajectory_grid, plot_OAS_mesh, plot_OAS_force_contours", "openconcept/utilities/visualization.py")])

p("U05", "Results depend only on the current inputs and options",
  "For every component, configuration and history of earlier evaluations, outputs and derivatives depend only on the current inputs and options: having evaluated another point before, or having set up and run another instance with other options, changes nothing. Evaluating a component leaves its inputs and options unmodified.",
  ["inputs", "histories", "configurations"], "all input values before and after; every component of the library in the configurations of the derivative properties; each input changed alone and all together; one neighbour instance",
  "Tests build each component fresh and run it once; stale state shows only for a second point that differs in the right way.",
  ["openconcept"], [("compute, compute_partials, linearize, apply_nonlinear", "every component under openconcept/"), ("values remembered between evaluations", "object attributes, class attributes and module globals under openconcept/")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
