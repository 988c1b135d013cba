import numpy as np
from openconcept.propulsion import systems as S
from sx.core import Semantic
from .lib import pick

TITLE = "Propulsion assemblies account for every engine, motor and load"
BOUNDS = ["every architecture in propulsion/systems; all throttles, ratings, failure flags, split fractions and flight conditions; "
          "propeller maps, cooling ducts and heat exchangers as arbitrary functions; 1-5 and 11 nodes (thorough also 7, 9); energy-storage "
          "histories need an odd number of nodes (1, 3, 5, 11; thorough also 7)"]


def opq(path, c):
    return any(t in path + "." for t in (".duct.", ".hx.")) or type(c).__name__ == "ThrustCalc"


def defaults(m):
    pass


def grp(env, cls, nn, close=False):
    g = env.group(lambda: getattr(S, cls)(num_nodes=nn), key=(cls, nn), opaque=opq, setup=SETUP.get(cls),
                  spec={"*SOC*": (0, 1), "*duration": (0, None)})
    if close:
        eqs = [("eng_throttle_set.eng_throttle", "eng_throttle_set.eng_throttle")]
        if g.has("refrig.elec_load") and g.gm.find("refrig.elec_load") in g.gm.cut:
            eqs.insert(0, ("refrig.elec_load", "refrig.elec_load"))
        g.close(eqs)
    return g


SETUP = {}


def prop_in(env, g, unit, power):
    """the propeller absorbs exactly this shaft power and flies at the flight condition"""
    n, rho, U = g.val(unit + ".rpm", "rpm") / 60, g.val("fltcond|rho", "kg/m**3"), g.val("fltcond|Utrue", "m/s")
    for a in g.inputs(unit, "diameter"):
        env.eq("%s gets the diameter" % a, g.inval(a, "m"), g.val("ac|propulsion|propeller|diameter", "m"))
    D = g.val("ac|propulsion|propeller|diameter", "m")
    env.eq("%s absorbs the shaft power" % unit, g.val(unit + ".cp") * rho * n ** 3 * D ** 5, power)
    env.eq("%s advance ratio" % unit, g.val(unit + ".J") * n * D, U)


def rating(env, g, unit, name, units="W"):
    for a in g.inputs(unit, "power_rating"):
        env.eq("%s gets the rating" % a, g.inval(a, units), g.val(name, units))


def turboprop(nn):
    def fn(env):
        g = grp(env, "TurbopropPropulsionSystem", nn)
        P = g.val("throttle") * g.val("ac|propulsion|engine|rating", "W")
        env.eq("engine power", g.val("eng1.shaft_power_out", "W"), P)
        prop_in(env, g, "prop1", P)
        rating(env, g, "prop1", "ac|propulsion|engine|rating")
        env.eq("thrust", g.val("thrust", "N"), g.val("prop1.thrust", "N"))
        env.eq("fuel flow", g.val("fuel_flow", "kg/s"), g.val("eng1.fuel_flow", "kg/s"))
    return fn


def twin_turboprop(nn):
    def fn(env):
        g = grp(env, "TwinTurbopropPropulsionSystem", nn)
        P = g.val("throttle") * g.val("ac|propulsion|engine|rating", "W")
        act = g.val("propulsor_active")
        env.eq("engine 1 power", g.val("eng1.shaft_power_out", "W"), P)
        env.eq("engine 2 power follows the failure flag", g.val("eng2.shaft_power_out", "W"), P * act)
        prop_in(env, g, "prop1", P)
        prop_in(env, g, "prop2", P * act)
        for u in ("prop1", "prop2"):
            rating(env, g, u, "ac|propulsion|engine|rating")
        env.eq("thrust is the sum", g.val("thrust", "N"), g.val("prop1.thrust", "N") + g.val("prop2.thrust", "N"))
        ff = g.val("eng1.fuel_flow", "kg/s")
        env.eq("fuel flow is the sum", g.val("fuel_flow", "kg/s"), ff + g.val("eng2.fuel_flow", "kg/s"))
        env.eq("fuel flow of the failed engine scales with its flag", g.val("eng2.fuel_flow", "kg/s"), ff * act)
        env.eq("engine weight is the sum", g.val("engines_weight", "kg"), g.val("eng1.component_weight", "kg") + g.val("eng2.component_weight", "kg"))
        env.eq("propeller weight is the sum", g.val("propellers_weight", "kg"), g.val("prop1.component_weight", "kg") + g.val("prop2.component_weight", "kg"))
    return fn


def hybrid_core(env, g, nn, motors, load_name, extra=None, fuel="ac|"):
    """shared goals of the series-hybrid layouts"""
    rat = g.val("ac|propulsion|motor|rating", "W")
    total = 0
    for k, (u, th) in enumerate(motors):
        load = th * rat
        env.eq("%s load" % u, g.val(u + ".elec_load", "W"), load)
        shaft = g.val(u + ".shaft_power_out", "W")
        env.eq("%s heat is the loss" % u, g.val(u + ".heat_out", "W"), load - shaft)
        prop = "prop%d" % (k + 1)
        prop_in(env, g, prop, shaft)
        rating(env, g, prop, "ac|propulsion|motor|rating")
        total = total + load
    if extra is not None:
        total = total + extra
    if load_name:
        env.eq("electrical load is the sum", g.val(load_name, "W"), total)
    frac = g.val("hybrid_split.power_split_fraction")
    batt = g.val("batt1.elec_load", "W") if g.has("batt1.elec_load") else g.inval("batt1.elec_load", "W")
    env.eq("battery serves the requested share", batt, frac * total)
    env.eq("generator engine rating", g.inval("eng1.shaft_power_rating", "W"), g.val("ac|propulsion|engine|rating", "W"))
    env.eq("generator is fed by the engine", g.inval("gen1.shaft_power_in", "W"), g.val("eng1.shaft_power_out", "W"))
    env.eq("generator rating", g.inval("gen1.elec_power_rating", "W"), g.val("ac|propulsion|generator|rating", "W"))
    env.eq("battery weight", g.inval("batt1.battery_weight", "kg") if not g.has("batt1.battery_weight") else g.val("batt1.battery_weight", "kg"), g.val("ac|weights|W_battery", "kg"))
    env.eq("fuel flow is the engine's", g.val("fuel_flow", "kg/s"), g.val("eng1.fuel_flow", "kg/s"))
    return total, batt, g.val("gen1.elec_power_out", "W")


def twin_series(cls, nn):
    def fn(env):
        g = grp(env, cls, nn, close=True)
        th, act = g.val("throttle"), g.val("propulsor_active")
        refr = None
        if "Refrigerated" in cls:
            refr = g.val("refrig.elec_load", "W")
        total, batt, gen = hybrid_core(env, g, nn, [("motor1", th), ("motor2", th * act)],
                                       "total_elec_load" if refr is not None else "motors_elec_load", refr)
        env.eq("power drawn = battery + generator power", total, batt + gen)
        env.eq("generator serves the rest", gen, (1 - g.val("hybrid_split.power_split_fraction")) * total)
        env.eq("reported battery load", g.val("battery_load", "W"), batt)
        env.eq("thrust is the sum", g.val("thrust", "N"), g.val("prop1.thrust", "N") + g.val("prop2.thrust", "N"))
        env.eq("motor weight is the sum", g.val("motors_weight", "kg"), g.val("motor1.component_weight", "kg") + g.val("motor2.component_weight", "kg"))
        env.eq("propeller weight is the sum", g.val("propellers_weight", "kg"), g.val("prop1.component_weight", "kg") + g.val("prop2.component_weight", "kg"))
        for a in g.inputs("batt1", "specific_energy"):
            env.eq("battery specific energy", g.inval(a, "W*h/kg"), g.val("ac|propulsion|battery|specific_energy", "W*h/kg"))
        if "Thermal" in cls:
            heat = g.val("motor1.heat_out", "W") + g.val("motor2.heat_out", "W")
            env.eq("motor heat is the sum", g.val("motors_heat", "W"), heat)
            for u, q, m in (("motorheatsink", heat, g.val("motors_weight", "kg")),
                            ("batteryheatsink", g.val("batt1.heat_out", "W"), g.val("ac|weights|W_battery", "kg"))):
                for a in g.inputs(u, "q_in"):
                    env.eq("%s takes the rejected heat" % u, g.inval(a, "W"), q)
                for a in g.inputs(u, "mass"):
                    env.eq("%s has the cooled mass" % u, g.inval(a, "kg"), m)
            for a in g.inputs("duct", "area_nozzle"):
                env.eq("nozzle area reaches the duct", DUCT(g, a), g.val("ac|propulsion|thermal|duct|area_nozzle", "m**2"))
            cooling(env, g, cls)
    return fn


def balance(cls, nn):
    """the equation that sets the engine throttle compares generator power with the share asked of it"""
    def fn(env):
        g = grp(env, cls, nn)
        env.eq("generator is fed by the engine", g.inval("gen1.shaft_power_in", "W"), g.val("eng1.shaft_power_out", "W"))
        env.eq("engine throttle is the solved one", g.inval("eng1.throttle"), g.val("eng_throttle_set.eng_throttle"))
        env.eq("power available is the generator's", g.inval("eng_throttle_set.gen_power_available", "W"), g.val("gen1.elec_power_out", "W"))
        env.eq("power required is the generator's share", g.inval("eng_throttle_set.gen_power_required", "W"),
               (1 - g.val("hybrid_split.power_split_fraction")) * g.inval("hybrid_split.power_in", "W"))
    return fn


def DUCT(g, a):
    """value that reaches the (opaque) duct"""
    return g.val(g.gm.conn[a], "m**2")


HEX = (("channel_width", "m"), ("channel_height", "m"), ("channel_length", "m"), ("n_parallel", None))


def fed(env, g, unit, inp, src, units=None):
    """whatever reads `inp` inside `unit` gets `src`"""
    for a in g.inputs(unit, inp):
        env.eq("%s of %s is %s" % (inp, unit, src), g.val(g.gm.conn[a], units), g.val(src, units))


def loop(env, g, links):
    for (u, inp), src in links:
        fed(env, g, u, inp, src, "degK")


def cooling(env, g, cls):
    """sizing inputs of the cooling system and the coolant's way round the loop"""
    dv = "" if "AllElectric" in cls else "ac|propulsion|thermal|hx|"
    sinks = ("motorheatsink",) if "AllElectric" in cls else ("motorheatsink", "batteryheatsink")
    for u in sinks:
        for n, un in HEX:
            fed(env, g, u, n, dv + n, un)
    for u in sinks + ("reservoir",):
        fed(env, g, u, "mdot_coolant", dv + "mdot_coolant", "kg/s")
    hx = "duct" if "_Compressible" in cls else "hx"
    for n, src, u in (("p_inf", "fltcond|p", "Pa"), ("T_inf", "fltcond|T", "degK"), ("Utrue", "fltcond|Utrue", "m/s")) if "_Compressible" in cls else \
            (("fltcond|rho", "fltcond|rho", "kg/m**3"), ("fltcond|Utrue", "fltcond|Utrue", "m/s")):
        a = g.gm.alias_in.get("duct." + n)
        if a is not None:
            env.eq("%s of the cooling duct is that of the flight" % n, g.val(g.gm.conn[a], u), g.val(src, u))
    if "_Incompressible" in cls:
        fed(env, g, "duct", "area_nozzle", "area_nozzle", "m**2")
    fed(env, g, hx, "mdot_hot", dv + "mdot_coolant", "kg/s")
    fed(env, g, hx, "rho_hot", "rho_coolant", "kg/m**3")
    for a in g.inputs("hx", "ac|propulsion|thermal|hx|n_wide_cold") if "AllElectric" not in cls else ():
        env.eq("exchanger has the width given", g.val(g.gm.conn[a]), g.val("ac|propulsion|thermal|hx|n_wide_cold"))
    if "_Compressible" not in cls:
        fed(env, g, "hx", "mdot_cold", "duct.mdot", "kg/s")
        fed(env, g, "hx", "T_in_cold", "fltcond|T", "degK")
        fed(env, g, "hx", "rho_cold", "fltcond|rho", "kg/m**3")
        fed(env, g, "duct", "delta_p_hex", "hx.delta_p_cold", "Pa")
    T = "T_in"
    if "Refrigerated" in cls:
        for n, src, un in (("eff_factor", "eff", None), ("power_rating", "rating", "W"), ("specific_power", "specific_power", "W/kg")):
            fed(env, g, "refrig", n, "ac|propulsion|thermal|refrig|" + src, un)
        for a, src in (("refrig.T_in_cold", "motorheatsink.T_out"), ("refrig.T_in_hot", "hx.T_out_hot")):
            env.eq("%s is %s" % (a, src), g.val(g.gm.conn[g.gm.alias_in[a]], "degK"), g.val(src, "degK"))
        env.eq("coolant flow through the heat pump", g.inval("refrig.mdot_coolant", "kg/s"), g.val(dv + "mdot_coolant", "kg/s"))
        loop(env, g, [(("batteryheatsink", T), "refrig.T_out_cold"), (("motorheatsink", T), "batteryheatsink.T_out"), (("hx", "T_in_hot"), "refrig.T_out_hot")])
    else:
        fed(env, g, "reservoir", "mass", dv + "coolant_mass", "kg")
        first, last = sinks[-1], sinks[0]
        links = [((hx, "T_in_hot"), last + ".T_out"), (("reservoir", T), hx + ".T_out_hot"), ((first, T), "reservoir.T_out")]
        if first != last:
            links.append(((last, T), first + ".T_out"))
        loop(env, g, links)
    for u in sinks + ("reservoir", "batt1"):
        fed(env, g, u, "duration", "duration", "s")


def single_series(nn):
    def fn(env):
        g = grp(env, "SingleSeriesHybridElectricPropulsionSystem", nn)
        total, batt, gen = hybrid_core(env, g, nn, [("motor1", g.val("motor1.throttle"))], None)
        env.eq("reported mismatch = generator power - required power", g.val("eng_gen_resid.eng_gen_residual", "W"), gen - (total - batt))
        env.eq("thrust", g.val("thrust", "N"), g.val("prop1.thrust", "N"))
        env.eq("motor weight", g.val("motors_weight", "kg"), g.val("motor1.component_weight", "kg"))
        env.eq("propeller weight", g.val("propellers_weight", "kg"), g.val("prop1.component_weight", "kg"))
    return fn


def series(nn):
    def fn(env):
        g = grp(env, "SeriesHybridElectricPropulsionSystem", nn)
        load = g.val("throttle") * g.val("dv_motor1_rating", "W")
        env.eq("motor load", g.val("motor1.elec_load", "W"), load)
        env.eq("split adds up", g.val("hybrid_split.power_out_A", "W") + g.val("hybrid_split.power_out_B", "W"), load)
        env.eq("battery serves the requested share", g.inval("batt1.elec_load", "W"), load * g.val("hybrid_split.power_split_fraction"))
        env.eq("generator is fed by the engine", g.inval("gen1.shaft_power_in", "W"), g.val("eng1.throttle") * g.val("ac|propulsion|engine|rating", "W"))
        n, D = g.val("prop1.rpm", "rpm") / 60, g.val("dv_prop1_diameter", "m")
        env.eq("propeller absorbs the shaft power", g.val("prop1.cp") * g.val("fltcond|rho", "kg/m**3") * n ** 3 * D ** 5, g.val("motor1.shaft_power_out", "W"))
        env.eq("advance ratio", g.val("prop1.J") * n * D, g.val("fltcond|Utrue", "m/s"))
        rating(env, g, "prop1", "dv_motor1_rating")
        env.eq("battery weight", g.inval("batt1.battery_weight", "kg"), g.val("dv_batt1_weight", "kg"))
        env.eq("generator rating", g.inval("gen1.elec_power_rating", "W"), g.val("dv_gen1_rating", "W"))
        for n, u in (("thrust", "N"), ("fuel_flow", "kg/s")):
            env.eq(n, g.val(n, u), g.val(("prop1." if n == "thrust" else "eng1.") + n, u))
    return fn


def electric(cls, nn):
    def fn(env):
        g = grp(env, cls, nn)
        load = g.val("throttle") * g.val("ac|propulsion|motor|rating", "W")
        env.eq("motor load", g.val("motor1.elec_load", "W"), load)
        for a in g.inputs("batt1", "elec_load"):
            env.eq("battery carries the motor load (%s)" % a, g.inval(a, "W"), load)
        for a in g.inputs("batt1", "battery_weight"):
            env.eq("battery weight", g.inval(a, "kg"), g.val("ac|weights|W_battery", "kg"))
        prop_in(env, g, "prop1", g.val("motor1.shaft_power_out", "W"))
        rating(env, g, "prop1", "ac|propulsion|motor|rating")
        env.eq("thrust", g.val("thrust", "N"), g.val("prop1.thrust", "N"))
        for a in g.inputs("motorheatsink", "q_in"):
            env.eq("heat sink takes the motor heat", g.inval(a, "W"), load - g.val("motor1.shaft_power_out", "W"))
        for a in g.inputs("motorheatsink", "mass"):
            env.eq("heat sink has the motor mass", g.inval(a, "kg"), g.val("motor1.component_weight", "kg"))
        for a in g.inputs("", "mdot_coolant"):
            env.eq("coolant flow is the same everywhere", g.inval(a, "kg/s"), g.val("mdot_coolant", "kg/s"))
        cooling(env, g, cls)
    return fn


def energy_option(cls):
    """the battery of an all-electric layout has the specific energy that was asked for"""
    def fn(env):
        g = env.group(lambda: getattr(S, cls)(num_nodes=3, specific_energy=417.0), key=("spec", cls), opaque=opq,
                      spec={"*specific_energy": "const", "*SOC*": (0, 1), "*duration": (0, None)})
        E = 417.0 * 3600 * g.val("ac|weights|W_battery", "kg")
        T, P = g.val("duration", "s"), np.reshape(g.val("motor1.elec_load", "W"), -1)
        soc = np.reshape(g.val("batt1.SOC"), -1)
        env.eq("charge used is the load over the battery's energy", (soc[0] - soc[-1]) * E, T / 6 * (P[0] + 4 * P[1] + P[2]))
    return fn


def energy_single(env):
    g = env.group(lambda: S.SingleSeriesHybridElectricPropulsionSystem(num_nodes=2, specific_energy=417.0), key=("spec1",), opaque=opq, spec={"*specific_energy": "const"})
    env.eq("battery holds its specific energy times its weight", g.val("batt1.max_energy", "W*h"), 417.0 * g.val("ac|weights|W_battery", "kg"))


def harnesses(tier):
    out = [Semantic("specific energy/SingleSeriesHybridElectricPropulsionSystem", energy_single)]
    out += [Semantic("specific energy/" + c, energy_option(c)) for c in
           ("AllElectricSinglePropulsionSystemWithThermal_Compressible", "AllElectricSinglePropulsionSystemWithThermal_Incompressible")]
    for nn in pick(tier, (1, 2), (1, 2, 3, 5, 11), (1, 2, 3, 4, 5, 7, 9, 11)):
        out.append(Semantic("turboprop/nn%d" % nn, turboprop(nn), max_paths=200))
        out.append(Semantic("twin turboprop/nn%d" % nn, twin_turboprop(nn), max_paths=200))
        out.append(Semantic("single series hybrid/nn%d" % nn, single_series(nn), max_paths=200))
        out.append(Semantic("series hybrid/nn%d" % nn, series(nn), max_paths=200))
    for nn in pick(tier, (1, 3), (1, 3, 5, 11), (1, 3, 5, 7, 11)):
        for cls in ("TwinSeriesHybridElectricPropulsionSystem", "TwinSeriesHybridElectricThermalPropulsionSystem",
                    "TwinSeriesHybridElectricThermalPropulsionRefrigerated"):
            out.append(Semantic("%s/nn%d" % (cls, nn), twin_series(cls, nn), max_paths=200))
            out.append(Semantic("throttle balance/%s/nn%d" % (cls, nn), balance(cls, nn), max_paths=200))
        for cls in ("AllElectricSinglePropulsionSystemWithThermal_Compressible", "AllElectricSinglePropulsionSystemWithThermal_Incompressible"):
            out.append(Semantic("%s/nn%d" % (cls, nn), electric(cls, nn), max_paths=200))
    return out
