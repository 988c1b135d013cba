import numpy as np
from openconcept.thermal import chiller as C
from openconcept.thermal import heat_pipe as H
from sx.core import Semantic
from .lib import flat, pick

TITLE = "Heat pump and heat pipe respect the first law and their limits"
BOUNDS = ["1-3 and 11 nodes (thorough also 5): all inlet temperatures, flows, powers, specific powers and bypass settings between 0 and 1; both ways of "
          "controlling the bypass; all pipe sizes, pipe counts, heats; ammonia's tabulated properties as arbitrary values (interpolated table)"]
PI = np.pi


def cop_pump(nn):
    def fn(env):
        c, P = env.inp("COP", (nn,), base=3.0), env.inp("P", (1,), base=1000.0)
        o = env.comp(C.COPHeatPump, num_nodes=nn).run({"COP": c, "power_rating": P})
        env.eq("first law", o["q_in_1"] + o["q_in_2"], P + 0 * c)
        env.eq("heat lifted per unit of shaft power", -o["q_in_1"], c * P)
    return fn


def selector(nn):
    def fn(env):
        v = {k: env.inp(k, (nn,), 100, 1000, base=b) for k, b in dict(T_in_cold=300.0, T_in_hot=310.0, T_out_refrig_cold=290.0, T_out_refrig_hot=330.0).items()}
        b, P = env.inp("b", (nn,), 0, 1, base=0.3), env.pos("P", (1,), base=1000.0)
        sel = env.comp(C.LinearSelector, num_nodes=nn)
        run = lambda x: {k: np.array(a) for k, a in sel.run(dict(bypass=x, power_rating=P, **v)).items()}
        o, z, w = run(b), run(0 * b), run(0 * b + 1)
        env.eq("no bypass: cold outlet is the chilled stream", z["T_out_cold"], v["T_out_refrig_cold"])
        env.eq("no bypass: hot outlet is the heated stream", z["T_out_hot"], v["T_out_refrig_hot"])
        env.eq("full bypass: one stream passes unchanged", w["T_out_cold"], v["T_in_hot"])
        env.eq("full bypass: the other stream passes unchanged", w["T_out_hot"], v["T_in_cold"])
        env.eq("full bypass: no electrical load", w["elec_load"], 0 * b)
        for k in o:
            env.eq("%s is linear in the bypass" % k, o[k], z[k] + b * (w[k] - z[k]))
        env.eq("electrical load carries the motor efficiency", z["elec_load"] * 0.95, P + 0 * b)
    return fn


def weight(env):
    P, s = env.pos("P", (1,), base=1000.0), env.pos("s", (1,), base=200.0)
    env.eq("weight is rating over specific power", env.comp(C.HeatPumpWeight).run({"power_rating": P, "specific_power": s})["component_weight"] * s, P)


def cop(nn):
    def fn(env):
        th, d, e = env.inp("Th", (nn,), 200, 1000, base=330.0), env.inp("d", (nn,), 0, 150, base=20.0), env.inp("e", (1,), 0.05, 1, base=0.4)
        c = env.comp(C.COPExplicit, num_nodes=nn).run({"T_h": th, "T_c": th - d, "eff_factor": e})["COP"]
        env.gt("heat is lifted, not dropped", c, 0)
        for i in range(nn):
            dd, tc = flat(d)[i], flat(th)[i] - flat(d)[i]
            a = tc * env.math("tanh", dd) * flat(e)[0] / dd + (1 - env.math("tanh", dd + 3)) * 5
            w, w0 = env.math("exp", -1.5 * a), np.exp(-15.0)
            env.eq("softened share of the ideal coefficient of performance", flat(c)[i] * (w + w0), a * w + 10 * w0)
    return fn


def no_lift(nn):
    """both sides at one temperature: the limit of the relation above as the temperature difference vanishes"""
    def fn(env):
        tc, e = env.inp("T", (nn,), 200, 1000, base=330.0), env.inp("e", (1,), 0.05, 1, base=0.4)
        c = env.comp(C.COPExplicit, num_nodes=nn).run({"T_h": tc, "T_c": tc, "eff_factor": e})["COP"]
        for i in range(nn):
            a = flat(tc)[i] * flat(e)[0] + (1 - np.tanh(3.0)) * 5
            w, w0 = env.math("exp", -1.5 * a), np.exp(-15.0)
            env.eq("no temperature lift", flat(c)[i] * (w + w0), a * w + 10 * w0)
    return fn


def pump_group(nn, nonlinear, opts):
    def fn(env):
        cp = opts.get("specific_heat", 3801.0)
        g = env.group(lambda: C.HeatPumpWithIntegratedCoolantLoop(num_nodes=nn, nonlinear_bypass_control=nonlinear, **opts),
                      key=("pump", nn, nonlinear, tuple(opts)), opaque=lambda path, c: type(c).__name__ == "COPExplicit",
                      spec={"*bypass*": (0, 1), "*COP*": (0, 20), "*T*": (100, 2000), "*": (1e-3, 1e6)})
        v = lambda n, u=None: flat(g.val(n, u))
        if nonlinear:
            b = v("bypass")
        else:
            b0, b1 = v("control.bypass_start"), v("control.bypass_end")
            w = np.linspace(0, 1, nn)
            b = b0 + (b1 - b0) * w
            env.eq("bypass goes from its start to its end value", v("bypass"), b)
        P, m = v("power_rating", "W"), v("mdot_coolant", "kg/s")
        ti, to = v("T_in_cold", "K") + v("T_in_hot", "K"), v("T_out_cold", "K") + v("T_out_hot", "K")
        env.eq("both streams together receive the shaft power not bypassed", m * cp * (to - ti), (1 - b) * P)
        env.eq("electrical load follows the share that is not bypassed", v("elec_load", "W") * 0.95, (1 - b) * P)
        env.eq("weight", v("component_weight", "kg") * v("specific_power", "W/kg"), P)
        env.eq("cold stream gives up the lifted heat", m * cp * (v("T_out_cold", "K") - b * v("T_in_hot", "K") - (1 - b) * v("T_in_cold", "K")),
               -(1 - b) * P * flat(g.inval("heat_pump.COP")))
        for side, other in (("hot", "cold"), ("cold", "hot")):
            for t in g.inputs("", "T_" + side[0]):
                env.eq("coefficient of performance is the one between the two outlet temperatures (%s)" % side,
                       (1 - b) * flat(g.inval(t, "K")) + b * v("T_in_" + other, "K"), v("T_out_" + side, "K"))
        for t in g.inputs("copmatch", "eff_factor"):
            env.eq("efficiency factor reaches the heat pump", flat(g.inval(t)), v("eff_factor"))
    return fn


# --------------------------------------------------------------------------- heat pipes
def resistance(nn, vapor):
    def fn(env):
        O = {"length_evap": env.inp("le", (), 0.01, 5, base=0.25), "length_cond": env.inp("lc", (), 0.01, 5, base=0.3),
             "wall_conduct": env.inp("kw", (), 1, 500, base=196.0), "wick_thickness": env.inp("tw", (), 1e-5, 4e-3, base=1e-3), "wick_conduct": env.inp("km", (), 0.1, 100, base=4.0)}
        D, t = env.inp("D", (1,), 0.01, 1, base=0.02), env.inp("t", (1,), 1e-5, 0.1, base=1e-3)
        q, dT = env.pos("q", (nn,), base=800.0), env.inp("dT", (nn,), 0, 100, base=1.0)
        R = env.comp(H.HeatPipeThermalResistance, num_nodes=nn, vapor_resistance=vapor, symopts=O).run({"inner_diam": D, "wall_thickness": t, "q": q, "delta_T": dT})["thermal_resistance"]
        x = lambda k: O[k] * np.ones(1) if env.real else np.array([O[k]], dtype=object)
        f = lambda a: np.array([env.math("log", z) for z in flat(a)], dtype=float if env.real else object)
        rw = f(D / (D - 2 * x("wick_thickness"))) / (2 * PI * x("wick_conduct"))
        rp = f((D + 2 * t) / D) / (2 * PI * x("wall_conduct"))
        want = (rw + rp) * (1 / x("length_evap") + 1 / x("length_cond"))
        env.eq("radial conduction at both ends and the vapor drop in series", flat(R), want + (flat(dT) / flat(q) if vapor else 0 * flat(q)))
    return fn


def vapor(nn):
    def fn(env):
        O = {"latent_heat": env.inp("hl", (), 1e4, 1e7, base=1371.2e3), "visc_base": env.inp("v0", (), 1e-6, 1e-3, base=9e-6), "visc_inc": env.inp("v1", (), 1e-9, 1e-6, base=4e-8)}
        d = {"q": env.pos("q", (nn,), base=3000.0), "temp": env.inp("T", (nn,), 0, 90, base=50.0), "rho_vapor": env.pos("r", (nn,), base=12.0),
             "vapor_pressure": env.pos("p", (nn,), base=1e6), "inner_diam": env.pos("D", (1,), base=0.02), "length": env.pos("L", (1,), base=6.0)}
        o = env.comp(H.HeatPipeVaporTempDrop, num_nodes=nn, symopts=O).run(d)["delta_T"]
        D, A = d["inner_diam"], PI / 4 * d["inner_diam"] ** 2
        U = d["q"] / (O["latent_heat"] * d["rho_vapor"] * A)
        mu = O["visc_base"] + O["visc_inc"] * d["temp"]
        # delta_T = 35.976/p * dp,  dp = f L/D rho U^2/2,  f = 0.3164 Re^-1/4
        env.eq("friction loss of the vapor along the saturation line", (o * d["vapor_pressure"] * 2 * D) ** 4 * (d["rho_vapor"] * U * D),
               (35.976 * 0.3164 * d["length"] * d["rho_vapor"] * U ** 2) ** 4 * mu)
    return fn


def wall(env):
    O = {"yield_stress": env.inp("sy", (), 10, 2000, base=572.0), "rho_wall": env.inp("rw", (), 100, 2e4, base=2810.0), "stress_safety_factor": env.inp("fos", (), 1, 10, base=4.0)}
    p, D, L = env.pos("p", (1,), base=2.0), env.pos("D", (1,), base=0.02), env.pos("L", (1,), base=6.0)
    o = env.comp(H.HeatPipeWeight, symopts=O).run({"design_pressure": p, "inner_diam": D, "length": L})
    t = o["wall_thickness"]
    env.ge("hoop stress stays below yield over the safety factor", 2 * t * O["yield_stress"], p * D * O["stress_safety_factor"])
    env.eq("weight is that of the thin wall", o["heat_pipe_weight"], PI * D * t * L * O["rho_wall"])


def qmax(nn):
    def fn(env):
        O = {"latent_heat": env.inp("hl", (), 1e4, 1e7, base=1371.2e3), "theta": env.inp("th", (), 1, 89, base=20.0)}
        D, T = env.inp("D", (1,), 1e-3, 1, base=0.02), env.inp("T", (nn,), -50, 100, base=40.0)
        rv = env.inp("rv", (nn,), 0.05, 100, base=12.0)
        rl = rv + env.inp("dr", (nn,), 10, 800, base=560.0)
        q = env.comp(H.QMaxAnalyticalPart, num_nodes=nn, symopts=O).run({"inner_diam": D, "temp": T, "rho_liquid": rl, "rho_vapor": rv})["q_max"]
        env.gt("limit is positive", q, 0)
        for i in range(nn):
            st = 0.026 - 2.3e-4 * flat(T)[i]
            dr = flat(rl)[i] - flat(rv)[i]
            bo = flat(D)[0] * (9.80665 / st * dr) ** 0.5
            k = (flat(rl)[i] / flat(rv)[i]) ** 0.14 * env.math("tanh", bo ** 0.25) ** 2
            up = 9.80665 * env.math("cos", O["theta"] * (PI / 180)) if env.real else 9.80665 * env.math("sin", PI / 2 - O["theta"] * (PI / 180))
            env.eq("flooding limit", flat(q)[i] * (flat(rl)[i] ** -0.25 + flat(rv)[i] ** -0.25) ** 2,
                   k * PI / 4 * flat(D)[0] ** 2 * O["latent_heat"] * (up * st * dr) ** 0.25)
    return fn


SP = {"*T*": (-50, 99), "*temp": (-50, 99), "*rho_liquid": (400, 800), "*rho_vapor": (0.05, 100), "*inner_diam": (1e-3, 1), "*": (1e-3, 1e7)}


def bundle(nn, opts):
    def fn(env):
        b = lambda: H.HeatPipe(num_nodes=nn, **opts)
        k = ("pipe", nn, tuple(sorted(opts.items())))
        opq = lambda path, c: type(c).__name__ == "MetaModelStructuredComp" or (nn > 1 and type(c).__name__ == "QMaxWarning")
        sp = SP if nn == 1 else dict({"T_evap": (0, 90)}, **SP)
        g = env.group(b, key=k + ("n",), opaque=opq, spec=sp)
        v = lambda h, n, u=None: np.array(flat(h.val(n, u)))
        n, q = v(g, "n_pipes"), v(g, "q", "W")
        w, lim, T = v(g, "weight", "kg"), v(g, "q_max", "W"), v(g, "T_cond", "degC")
        te = v(g, "T_evap", "degC")
        R = flat(g.val("resistance.thermal_resistance", "K/W"))
        env.eq("condenser is colder by each pipe's share of the heat through its resistance", T, te - q / n * R)
        one = env.group(b, key=k + ("1",), opaque=opq, spec=dict({"n_pipes": 1.0, "q": q / n}, **sp))
        env.eq("bundle weighs the count times one pipe", w, n * v(one, "weight", "kg"))
        env.eq("bundle is limited by the count times one pipe", lim, n * v(one, "q_max", "W"))
        env.eq("one pipe with its share of the heat has the same condenser", T, v(one, "T_cond", "degC"))
        # the options given to the bundle are the ones its pipes are built with
        D, L = g.val("inner_diam", "m"), g.val("length", "m")
        sub = lambda *names: {a: opts[a] for a in names if a in opts}
        pw = env.comp(H.HeatPipeWeight, **sub("yield_stress", "rho_wall", "stress_safety_factor")).run(
            {"design_pressure": g.val("q_max_calc.design_pressure", "MPa"), "inner_diam": D, "length": L})
        env.eq("weight of the wall with the material given", w, n * flat(pw["heat_pipe_weight"]))
        ql = env.comp(H.QMaxAnalyticalPart, num_nodes=nn, **sub("theta")).run(
            {"inner_diam": D, "temp": te, "rho_liquid": g.val("q_max_calc.ammonia_current.rho_liquid", "kg/m**3"), "rho_vapor": g.val("q_max_calc.ammonia_current.rho_vapor", "kg/m**3")})
        env.eq("limit at the tilt given", lim, n * flat(ql["q_max"]))
        rp = env.comp(H.HeatPipeThermalResistance, num_nodes=nn, vapor_resistance=True, **sub("length_evap", "length_cond", "wall_conduct", "wick_thickness", "wick_conduct")).run(
            {"inner_diam": D, "wall_thickness": pw["wall_thickness"], "q": q / n, "delta_T": g.val("delta_T_calc.delta_T", "K")})
        env.eq("resistance with the wick, walls and lengths given", R, flat(rp["thermal_resistance"]))
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = [Semantic("weight", weight), Semantic("pipe/wall", wall)]
    for nn in (1, 2) + pick(tier, (), (3, 11), (3, 5, 11)):
        n = "/nn%d" % nn
        out += [Semantic("cop pump" + n, cop_pump(nn)), Semantic("selector" + n, selector(nn)), Semantic("cop" + n, cop(nn)), Semantic("cop/no lift" + n, no_lift(nn)),
                Semantic("pipe/vapor" + n, vapor(nn)), Semantic("pipe/limit" + n, qmax(nn))]
        for w in (True, False):
            out.append(Semantic("pipe/resistance/%s%s" % ("vapor" if w else "walls", n), resistance(nn, w)))
        for o in ({}, {"specific_heat": 2500.0}):
            out.append(Semantic("heat pump/per node/%s%s" % ("other coolant" if o else "default", n), pump_group(nn, True, o)))
            if nn > 1:
                out.append(Semantic("heat pump/linear/%s%s" % ("other coolant" if o else "default", n), pump_group(nn, False, o)))
        for nme, o in (("default", {}), ("options", dict(length_evap=0.4, length_cond=0.3, wick_thickness=1e-4, wall_conduct=50.0, wick_conduct=3.0, yield_stress=300.0,
                                                         rho_wall=7800.0, stress_safety_factor=2.0, theta=30.0))):
            out.append(Semantic("pipe/bundle/%s%s" % (nme, n), bundle(nn, o)))
    return out
