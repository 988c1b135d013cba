import numpy as np
from openconcept.propulsion import SimpleMotor, SimpleGenerator, PowerSplit, SimplePropeller
from openconcept.energy_storage import SimpleBattery, SOCBattery
from sx.core import Semantic, Continuity
from .lib import total, pick

TITLE = "Power-conversion components conserve energy"
BOUNDS = ["all throttles, powers, ratings, efficiencies, split settings and technology factors (options symbolic); 1-3 and 11 nodes (thorough also 4; where a component branches, the first combinations at 11); the charge-tracking battery with every single option and all of them changed"]


def tech(env, names=("weight_inc", "weight_base", "cost_inc", "cost_base")):
    return {n: env.inp(n, lo=0, base=0.3 + 0.2 * i) for i, n in enumerate(names)}


def sizing(env, o, t, rating):
    if "weight_inc" in t:
        env.eq("weight law", o["component_weight"], t["weight_inc"] * rating + t["weight_base"])
    env.eq("cost law", o["component_cost"], t["cost_inc"] * rating + t["cost_base"])


def motor(nn):
    def fn(env):
        t = tech(env)
        eta = env.inp("efficiency", lo=0, hi=1, base=0.9)
        th, P = env.inp("throttle", nn, base=0.6), env.pos("rating", base=3.0)
        o = env.comp(SimpleMotor, symopts=dict(t, efficiency=eta), num_nodes=nn).run({"throttle": th, "elec_power_rating": P})
        env.eq("load = shaft power + heat", o["elec_load"], o["shaft_power_out"] + o["heat_out"])
        env.eq("shaft power = efficiency * load", o["shaft_power_out"], eta * o["elec_load"])
        env.eq("load = throttle * rating", o["elec_load"], th * P)
        env.eq("margin = load / rating", o["component_sizing_margin"] * P, o["elec_load"])
        sizing(env, o, t, P)
    return fn


def generator(nn):
    def fn(env):
        t = tech(env)
        eta = env.inp("efficiency", lo=0, hi=1, base=0.9)
        s, P = env.inp("shaft", nn, base=2.0), env.pos("rating", base=3.0)
        o = env.comp(SimpleGenerator, symopts=dict(t, efficiency=eta), num_nodes=nn).run({"shaft_power_in": s, "elec_power_rating": P})
        env.eq("shaft power = electric power + heat", s, o["elec_power_out"] + o["heat_out"])
        env.eq("electric power = efficiency * shaft power", o["elec_power_out"], eta * s)
        env.eq("margin = electric power / rating", o["component_sizing_margin"] * P, o["elec_power_out"])
        sizing(env, o, t, P)
    return fn


def split(nn, rule):
    def fn(env):
        t = tech(env)
        eta = env.inp("efficiency", lo=0, hi=1, base=0.9)
        pin, P = env.inp("power_in", nn, base=2.0), env.pos("rating", base=3.0)
        name = "power_split_fraction" if rule == "fraction" else "power_split_amount"
        x = env.inp(name, nn, base=0.4)
        o = env.comp(PowerSplit, symopts=dict(t, efficiency=eta), num_nodes=nn, rule=rule).run(
            {"power_in": pin, "power_rating": P, name: x})
        A, B, Q = o["power_out_A"], o["power_out_B"], o["heat_out"]
        env.eq("in = A + B + heat", pin, A + B + Q)
        env.eq("A + B = efficiency * in", A + B, eta * pin)
        env.eq("margin = power in / rating", o["component_sizing_margin"] * P, pin)
        if rule == "fraction":
            env.eq("A takes the fraction", A, eta * x * pin)
        else:
            for i in range(nn):
                if pin[i] < x[i]:
                    env.eq("[%d] not enough: A takes everything" % i, A[i], eta * pin[i])
                    env.eq("[%d] not enough: B gets nothing" % i, B[i], 0 * pin[i])
                else:
                    env.eq("[%d] A takes the amount" % i, A[i], eta * x[i])
        sizing(env, o, t, P)
    return fn


def splitcont(nn):
    def fn(env):
        eta = env.inp("efficiency", lo=0, hi=1, base=0.9)
        pin, x = env.inp("power_in", nn, base=2.0), env.inp("amount", nn, base=0.4)
        P = env.pos("rating", base=3.0)
        o = env.comp(PowerSplit, symopts=dict(efficiency=eta), num_nodes=nn, rule="fixed").run(
            {"power_in": pin, "power_rating": P, "power_split_amount": x})
        return {k: np.array(o[k]) for k in ("power_out_A", "power_out_B", "heat_out")}
    return fn


def battery(nn):
    def fn(env):
        t = tech(env, ("cost_inc", "cost_base"))
        eta = env.inp("efficiency", lo=0, hi=1, base=0.9)
        sp = env.pos("specific_power", base=3.0)
        m, L, e = env.pos("mass", base=2.0), env.inp("load", nn, base=0.7), env.pos("specific_energy", base=4.0)
        o = env.comp(SimpleBattery, symopts=dict(t, efficiency=eta, specific_power=sp), num_nodes=nn).run(
            {"battery_weight": m, "elec_load": L, "specific_energy": e})
        env.eq("heat is the lost share of the load", o["heat_out"], L * (1 - eta))
        env.eq("energy = mass * specific energy", o["max_energy"], m * e)
        env.eq("margin = load / power capability", o["component_sizing_margin"] * m * sp, L)
        env.eq("cost law", o["component_cost"], t["cost_inc"] * m + t["cost_base"])
    return fn


PACK = dict(efficiency=0.83, specific_energy=211.0, specific_power=1210.0, cost_inc=17.0, cost_base=5.0)


def pack(nn, given):
    """the pack that tracks its charge is the plain battery with the pack's own options"""
    opts = {k: PACK[k] for k in given}
    full = dict(efficiency=1.0, specific_energy=300.0, specific_power=5000.0, cost_inc=50.0, cost_base=1.0)
    full.update(opts)

    def fn(env):
        g = env.group(lambda: SOCBattery(num_nodes=nn, **opts), key=("pack", nn, tuple(given)), spec={"specific_energy": "const", "elec_load": (None, None), "*": (0, None)})
        L, m = g.val("elec_load", "W"), g.val("battery_weight", "kg")
        env.eq("heat is the lost share of the load", g.val("heat_out", "W"), L - L * full["efficiency"])
        env.eq("energy = mass * specific energy option", g.val("max_energy", "W*h"), m * full["specific_energy"])
        env.eq("margin = load / power capability", g.val("component_sizing_margin") * m * full["specific_power"], L)
        env.eq("cost law", g.val("component_cost", "USD"), m * full["cost_inc"] + full["cost_base"])
    return fn


def propdef(m):
    m.set_input_defaults("diameter", 2.5, units="m")


def propeller(nn, blades):
    def fn(env):
        g = env.group(lambda: SimplePropeller(num_nodes=nn, num_blades=blades), key=("prop", nn, blades), setup=propdef)
        P, U = g.val("shaft_power_in", "W"), g.val("fltcond|Utrue", "m/s")
        rho, T = g.val("fltcond|rho", "kg/m**3"), g.val("thrust", "N")
        n, D = g.val("rpm", "rpm") / 60, g.val("diameter", "m")
        cp, eta, ctcp = g.val("cp"), g.val("eta_prop"), g.val("ct_over_cp")
        env.eq("power coefficient", cp * rho * n ** 3 * D ** 5, P)
        J = g.val("J")
        env.eq("advance ratio", J * n * D, U)
        env.eq("tip speed", g.val("prop_Vtip"), np.pi * n * D)
        for m in ("propmap", "staticpropmap"):
            env.eq("power coefficient the %s is read at" % m, g.inval(m + ".cp"), cp)
        env.eq("advance ratio the map is read at", g.inval("propmap.J"), J)
        env.eq("weight correlation", g.val("component_weight", "lb"),
               0.108 * (g.val("diameter", "ft") * g.val("power_rating", "hp") * blades ** 0.5) ** 0.782)
        for i in range(nn):
            if J[i] >= 0.2:
                env.eq("[%d] propulsive power = efficiency * shaft power" % i, T[i] * U[i], eta[i] * P[i])
            elif J[i] <= 0.1:
                env.eq("[%d] static thrust" % i, T[i] * n[i] * D[0], ctcp[i] * P[i])
            else:
                w = (J[i] - 0.1) / 0.1
                env.eq("[%d] blended thrust" % i, T[i], (1 - w) * ctcp[i] * P[i] / (n[i] * D[0]) + w * eta[i] * P[i] / U[i])
    return fn


def propcont(nn, blades):
    def fn(env):
        g = env.group(lambda: SimplePropeller(num_nodes=nn, num_blades=blades), key=("prop", nn, blades), setup=propdef)
        return {"thrust": g.val("thrust", "N")}
    return fn


def harnesses(tier):
    out = []
    for nn in pick(tier, (1, 2), (1, 2, 3, 11), (1, 2, 3, 4, 11)):
        out += [Semantic("motor/nn%d" % nn, motor(nn)), Semantic("generator/nn%d" % nn, generator(nn)), Semantic("battery/nn%d" % nn, battery(nn))]
        for r in ("fraction", "fixed"):
            out.append(Semantic("split/%s/nn%d" % (r, nn), split(nn, r)))
        for b in (3, 4):
            out.append(Semantic("propeller/%dblades/nn%d" % (b, nn), propeller(nn, b)))
    out.append(Continuity("split/continuity", splitcont(1)))
    for nn in (1, 3):
        for given in ((), ("efficiency",), ("specific_energy",), ("specific_power",), ("cost_inc",), ("cost_base",), tuple(PACK)):
            out.append(Semantic("battery pack/%s/nn%d" % (",".join(given) if len(given) < 5 else "all options", nn), pack(nn, given)))
    for b in (3, 4):
        out.append(Continuity("propeller/%dblades/continuity" % b, propcont(1, b)))
    return out
