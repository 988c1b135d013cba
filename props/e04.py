import numpy as np
from openconcept.propulsion import RubberizedTurbofan, SimpleTurboshaft
from openconcept.costs import TurbopropOperatingCost
from sx.core import Semantic
from .e01 import tech, sizing
from .lib import pick

TITLE = "Engine scaling laws hold exactly"
BOUNDS = ["all ratings, throttles, flight conditions, technology factors and cost coefficients; the engine deck is an arbitrary function; "
          "both decks, both fuels; 1-6 and 11 nodes; 1-5 components (thorough 8), 0-2 batteries"]
RATED = {"N3": 28620.0, "CFM56": 27300.0}
LHV = 43.0 / 120.0


def fan(nn, eng, hy):
    def fn(env):
        g = env.group(lambda: RubberizedTurbofan(num_nodes=nn, engine=eng, hydrogen=hy), key=("fan", nn, eng, hy),
                      spec={"*orig_rating*": "const"})
        k = g.val("ac|propulsion|engine|rating", "lbf") / RATED[eng]
        T0, f0 = g.val("engine_deck.thrust", "lbf"), g.val("engine_deck.fuel_flow", "lbm/s")
        env.eq("thrust = deck thrust * rating ratio", g.val("thrust", "lbf"), T0 * k)
        env.eq("fuel flow = deck fuel flow * rating ratio * heating-value ratio", g.val("fuel_flow", "lbm/s"), f0 * k * (LHV if hy else 1.0))
        for n in ("throttle", "fltcond|h", "fltcond|M"):
            for a in g.inputs("engine_deck", n):
                env.eq("deck gets %s" % n, g.inval(a, "m" if n == "fltcond|h" else None), g.val(n, "m" if n == "fltcond|h" else None))
    return fn


def shaft(nn):
    def fn(env):
        t = tech(env)
        psfc = env.inp("psfc", lo=0, base=0.5)
        th, P = env.inp("throttle", nn, base=0.6), env.pos("rating", base=3.0)
        o = env.comp(SimpleTurboshaft, symopts=dict(t, psfc=psfc), num_nodes=nn).run({"throttle": th, "shaft_power_rating": P})
        env.eq("power = throttle * rating", o["shaft_power_out"], th * P)
        env.eq("fuel flow = psfc * power", o["fuel_flow"], psfc * th * P)
        env.eq("margin = power / rating", o["component_sizing_margin"] * P, th * P)
        sizing(env, o, t, P)
    return fn


def cost(nc, nb):
    names = ("airframe_cost_per_kg", "fuel_cost_per_kg", "electricity_cost_per_MJ", "aircraft_life_years", "aircraft_daily_cycles",
             "battery_replacement_cycles", "OEM_premium")

    def fn(env):
        p = {n: env.pos(n, base=0.5 + 0.3 * i) for i, n in enumerate(names)}
        ins = {"fuel_burn": env.inp("fuel_burn", (1,), 0, base=2.0), "OEW": env.inp("OEW", (1,), 0, base=9.0)}
        W = C = E = B = 0
        for i in range(nc):
            ins["component_%d_weight" % (i + 1)] = w = env.inp("w%d" % i, (1,), 0, base=1.0 + i)
            ins["component_%d_NR_cost" % (i + 1)] = c = env.inp("c%d" % i, (1,), 0, base=2.0 + i)
            W, C = W + w, C + c
        for i in range(nb or 0):
            ins["battery_%d_NR_cost" % (i + 1)] = b = env.inp("b%d" % i, (1,), 0, base=1.5 + i)
            ins["battery_%d_energy_used" % (i + 1)] = e = env.inp("e%d" % i, (1,), 0, base=2.5 + i)
            B, E = B + b, E + e
        o = env.comp(TurbopropOperatingCost, symopts=p, n_components=nc, n_batteries=nb).run(ins)
        env.eq("airframe cost excludes the propulsion components", o["airframe_NR_cost"], (ins["OEW"] - W) * p["airframe_cost_per_kg"] * p["OEM_premium"])
        env.eq("nonrecurring cost adds the components", o["total_NR_cost"], o["airframe_NR_cost"] + C * p["OEM_premium"])
        env.eq("fuel cost", o["fuel_cost"], ins["fuel_burn"] * p["fuel_cost_per_kg"])
        energy = o["fuel_cost"]
        trips = p["aircraft_daily_cycles"] * 365 * p["aircraft_life_years"]
        doc = o["total_NR_cost"] / trips
        if nb is not None:
            env.eq("electricity cost", o["electricity_cost"], E * p["electricity_cost_per_MJ"] + 0 * o["fuel_cost"])
            env.eq("battery cost per trip", o["trip_battery_cost"] * p["battery_replacement_cycles"], B + 0 * o["fuel_cost"])
            energy = energy + o["electricity_cost"]
            doc = doc + o["trip_battery_cost"]
        env.eq("energy cost adds up", o["trip_energy_cost"], energy)
        env.eq("direct operating cost adds up", o["trip_direct_operating_cost"], energy + doc)
    return fn


def harnesses(tier):
    out = []
    for nn in pick(tier, (1, 2), (1, 2, 3, 6, 11), (1, 2, 3, 6, 11)):
        for eng in RATED:
            for hy in (False, True):
                out.append(Semantic("turbofan/%s/%s/nn%d" % (eng, "hydrogen" if hy else "kerosene", nn), fan(nn, eng, hy)))
        out.append(Semantic("turboshaft/nn%d" % nn, shaft(nn)))
    for nc in pick(tier, (1, 2, 3), (1, 2, 3, 5), (1, 2, 3, 4, 5, 8)):
        for nb in (None, 1, 2):
            out.append(Semantic("cost/%dcomp/%sbatt" % (nc, nb), cost(nc, nb)))
    return out
