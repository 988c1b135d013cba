import numpy as np
import openmdao.api as om
from openconcept.thermal.manifold import FlowSplit, FlowCombine
from openconcept.thermal import thermal as T
from openconcept.thermal.battery_cooling import LiquidCooledBattery, BandolierCoolingSystem
from openconcept.thermal.motor_cooling import LiquidCooledMotor, MotorCoolingJacket
from openconcept.thermal.pump import SimplePump
from openconcept.thermal.hose import SimpleHose
from openconcept.utilities import Integrator
from sx.core import Semantic
from .lib import flat, pick
from .e03 import check_state

TITLE = "Coolant-loop elements conserve mass and energy"
BOUNDS = ["1, 3, 5, 7 and 11 analysis points (thorough 9); all temperatures, flows, masses, heats and geometry; quasi-steady and time-accurate "
          "modes; material and fluid option values symbolic for single components, two settings for the assembled ones"]
PI = float(np.pi)


def cp(x):
    return {k: np.array(v) for k, v in x.items()}


def manifold(nn):
    def fn(env):
        m, f = env.pos("mdot", (nn,), base=1.0), env.inp("frac", (nn,), 0, 1, base=0.3)
        o = cp(env.comp(FlowSplit, num_nodes=nn).run({"mdot_in": m, "mdot_split_fraction": f}))
        env.eq("split conserves mass", o["mdot_out_A"] + o["mdot_out_B"], m)
        env.eq("A receives its fraction", o["mdot_out_A"], f * m)
        env.ge("no backflow A", o["mdot_out_A"], 0)
        env.ge("no backflow B", o["mdot_out_B"], 0)
        ta, tb = env.inp("TA", (nn,), 100, 2000, base=300.0), env.inp("TB", (nn,), 100, 2000, base=350.0)
        q = cp(env.comp(FlowCombine, num_nodes=nn).run({"mdot_in_A": o["mdot_out_A"], "mdot_in_B": o["mdot_out_B"], "T_in_A": ta, "T_in_B": tb}))
        env.eq("splitting and merging returns the flow", q["mdot_out"], m)
        env.eq("merging conserves enthalpy", q["mdot_out"] * q["T_out"], o["mdot_out_A"] * ta + o["mdot_out_B"] * tb)
    return fn


def merge(nn):
    def fn(env):
        a, b = env.pos("a", (nn,), base=1.0), env.pos("b", (nn,), base=2.0)
        ta = env.inp("TA", (nn,), 100, 2000, base=300.0)
        tb = ta + env.inp("d", (nn,), 0, 500, base=50.0)
        q = cp(env.comp(FlowCombine, num_nodes=nn).run({"mdot_in_A": a, "mdot_in_B": b, "T_in_A": ta, "T_in_B": tb}))
        env.eq("mass", q["mdot_out"], a + b)
        env.eq("enthalpy", q["mdot_out"] * q["T_out"], a * ta + b * tb)
        env.ge("not colder than both", q["T_out"], ta)
        env.le("not hotter than both", q["T_out"], tb)
    return fn


def perfect(nn):
    def fn(env):
        c = env.inp("c", (), 1, 1e5, base=3801.0)
        ti, q, m = env.inp("Ti", (nn,), 100, 2000, base=300.0), env.inp("q", (nn,), base=500.0), env.pos("m", (nn,), base=0.5)
        o = env.comp(T.PerfectHeatTransferComp, num_nodes=nn, symopts={"specific_heat": c}).run({"T_in": ti, "q": q, "mdot_coolant": m})
        env.eq("all heat goes to the coolant", m * c * (o["T_out"] - ti), q)
        env.eq("average temperature", 2 * o["T_average"], ti + o["T_out"])
    return fn


def rates(nn):
    def fn(env):
        c = env.inp("c", (), 1, 1e5, base=921.0)
        qi, qo, m = env.inp("qi", (nn,), base=500.0), env.inp("qo", (nn,), base=300.0), env.pos("m", (1,), base=5.0)
        r = np.array(env.comp(T.ThermalComponentWithMass, num_nodes=nn, symopts={"specific_heat": c}).run({"q_in": qi, "q_out": qo, "mass": m})["dTdt"])
        env.eq("stored heat is what came in and did not leave", r * m * c, qi - qo)
        s = env.comp(T.ThermalComponentMassless, num_nodes=nn).run({"q_in": qi, "q_out": qo}, {"T_object": env.pos("To", (nn,), base=300.0)})["T_object"]
        env.eq("without mass nothing is stored", s ** 2, (qi - qo) ** 2)
        ti, to, md = env.pos("ti", (nn,), base=300.0), env.pos("to", (nn,), base=320.0), env.pos("md", (nn,), base=1.0)
        k = env.comp(T.CoolantReservoirRate, num_nodes=nn).run({"T_in": ti, "T_out": to, "mass": m, "mdot_coolant": md})["dTdt"]
        env.eq("reservoir absorbs the enthalpy difference", k * m, md * (ti - to))
    return fn


def plate(nn, sign):
    def fn(env):
        so = {"fluid_k": env.inp("k", (), 0.01, 10, base=0.4), "nusselt": env.inp("Nu", (), 0.1, 100, base=7.54),
              "specific_heat": env.inp("c", (), 10, 1e5, base=3801.0)}
        w, h, L, n = (env.pos(x, (1,), base=b) for x, b in (("w", 1e-3), ("h", 2e-2), ("L", 0.2), ("n", 50.0)))
        m, ti, d = env.pos("m", (nn,), base=0.5), env.inp("Ti", (nn,), 100, 2000, base=300.0), env.inp("d", (nn,), 0.1, 90, base=20.0)
        ts = ti + sign * d
        o = env.comp(T.ConstantSurfaceTemperatureColdPlate_NTU, num_nodes=nn, symopts=so).run(
            {"T_in": ti, "T_surface": ts, "mdot_coolant": m, "channel_width": w, "channel_height": h, "channel_length": L, "n_parallel": n})
        env.eq("heat goes to the coolant", o["q"], m * so["specific_heat"] * (o["T_out"] - ti))
        lo, hi = (ti, ts) if sign > 0 else (ts, ti)
        env.ge("outlet between inlet and plate (low)", o["T_out"], lo)
        env.le("outlet between inlet and plate (high)", o["T_out"], hi)
        # conductance: Nusselt over hydraulic diameter (2 w h / (w + h)) times the wetted area 2 (w + h) L n
        UA = so["nusselt"] * so["fluid_k"] * (w + h) / (2 * w * h) * 2 * (w + h) * L * n
        for i in range(nn):
            ex = env.math("exp", -flat(UA)[0] / (flat(m)[i] * so["specific_heat"]))
            env.eq("approach to the plate temperature", flat(o["T_out"])[i], flat(ts)[i] - flat(ts - ti)[i] * ex)
    return fn


def bandolier(nn, sign):
    def fn(env):
        O = {k: env.inp(k, (), lo, hi, base=b) for k, lo, hi, b in (
            ("coolant_specific_heat", 10, 1e5, 3801.0), ("fluid_k", 0.01, 10, 0.405), ("nusselt", 0.1, 100, 7.54), ("cell_kr", 0.01, 10, 0.3),
            ("cell_diameter", 1e-3, 1, 0.021), ("cell_height", 1e-3, 1, 0.07), ("cell_mass", 1e-3, 10, 0.07), ("cell_specific_heat", 10, 1e4, 875.0),
            ("battery_weight_fraction", 0.01, 1, 0.65))}
        q, ti, d, m = env.inp("q", (nn,), base=1e4), env.inp("Ti", (nn,), 100, 2000, base=300.0), env.inp("d", (nn,), 0.1, 90, base=20.0), env.pos("m", (nn,), base=0.2)
        W, n, t = env.pos("W", (1,), base=478.0), env.pos("n", (1,), base=82.0), env.pos("t", (1,), base=5e-4)
        tb = ti + sign * d
        o = cp(env.comp(BandolierCoolingSystem, num_nodes=nn, symopts=O).run(
            {"q_in": q, "T_in": ti, "T_battery": tb, "mdot_coolant": m, "battery_weight": W, "n_cpb": n, "t_channel": t}))
        c = O["coolant_specific_heat"]
        env.eq("heat goes to the coolant", o["q"], m * c * (o["T_out"] - ti))
        cells = W * O["battery_weight_fraction"] / O["cell_mass"]
        env.eq("cells store the heat that does not reach the coolant", o["dTdt"] * cells * O["cell_mass"] * O["cell_specific_heat"], q - o["q"])
        env.eq("heat conducted from the cell core equals heat convected", cells * 8 * PI * O["cell_height"] * O["cell_kr"] * (tb - o["T_surface"]), o["q"])
        env.eq("average cell temperature is halfway between core and surface", o["T_core"] + o["T_surface"], 2 * tb)
        lo, hi = (ti, tb) if sign > 0 else (tb, ti)
        env.ge("surface between coolant and cell (low)", o["T_surface"], lo)
        env.le("surface between coolant and cell (high)", o["T_surface"], hi)
        s = flat(o["T_surface"])
        # film conductance of the whole pack: two sides of every ribbon, two rows of cells per ribbon
        A = cells / (2 * n) * 2 * O["cell_height"] * n * O["cell_diameter"]
        UA = O["nusselt"] * O["fluid_k"] / (2 * t) * A
        for i in range(nn):
            ex = env.math("exp", -flat(UA)[0] / (flat(m)[i] * c))
            env.eq("approach to the surface temperature", flat(o["q"])[i], flat(m)[i] * c * (s[i] - flat(ti)[i]) * (1 - ex))
    return fn


def jacket(nn, sign):
    def fn(env):
        O = {"coolant_specific_heat": env.inp("c", (), 10, 1e5, base=3801.0), "case_cooling_coefficient": env.inp("h", (), 1, 1e5, base=1100.0),
             "case_area_coefficient": env.inp("a", (), 1e3, 1e8, base=650000.0), "motor_specific_heat": env.inp("cm", (), 10, 1e4, base=921.0)}
        q, ti, d, m = env.inp("q", (nn,), base=1e4), env.inp("Ti", (nn,), 100, 2000, base=300.0), env.inp("d", (nn,), 0.1, 90, base=20.0), env.pos("m", (nn,), base=0.2)
        W, P = env.pos("W", (1,), base=50.0), env.pos("P", (1,), base=2e5)
        tm = ti + sign * d
        o = cp(env.comp(MotorCoolingJacket, num_nodes=nn, symopts=O).run({"q_in": q, "T_in": ti, "T": tm, "mdot_coolant": m, "power_rating": P, "motor_weight": W}))
        c = O["coolant_specific_heat"]
        env.eq("heat goes to the coolant", o["q"], m * c * (o["T_out"] - ti))
        env.eq("motor stores the rest", o["dTdt"] * W * O["motor_specific_heat"], q - o["q"])
        lo, hi = (ti, tm) if sign > 0 else (tm, ti)
        env.ge("outlet between coolant and motor (low)", o["T_out"], lo)
        env.le("outlet between coolant and motor (high)", o["T_out"], hi)
        for i in range(nn):
            ex = env.math("exp", -O["case_cooling_coefficient"] * flat(P)[0] / (O["case_area_coefficient"] * flat(m)[i] * c))
            env.eq("approach to the motor temperature", flat(o["T_out"])[i], flat(tm)[i] - flat(tm - ti)[i] * ex)
    return fn


def pump(nn):
    def fn(env):
        O = {"efficiency": env.inp("eta", (), 0.01, 1, base=0.35), "weight_base": env.inp("w0", (), 0, 100, base=2.0), "weight_inc": env.inp("wi", (), 1e-4, 1, base=1 / 450)}
        P, m, dp, r = env.pos("P", (1,), base=1000.0), env.pos("m", (nn,), base=1.0), env.pos("dp", (nn,), base=1e5), env.pos("r", (nn,), base=1000.0)
        o = env.comp(SimplePump, num_nodes=nn, symopts=O).run({"power_rating": P, "mdot_coolant": m, "delta_p": dp, "rho_coolant": r})
        env.eq("electric load times efficiency is volume flow times pressure rise", o["elec_load"] * O["efficiency"] * r, m * dp)
        env.eq("sizing margin is load over rating", o["component_sizing_margin"] * P, o["elec_load"])
        env.eq("weight", o["component_weight"], O["weight_base"] + O["weight_inc"] * P)
    return fn


def hose(nn):
    def fn(env):
        O = {"hose_operating_stress": env.inp("s", (), 1e4, 1e8, base=2.07e6), "hose_density": env.inp("rh", (), 100, 1e4, base=1356.3)}
        D, L, p, mu = env.pos("D", (1,), base=0.0254), env.pos("L", (1,), base=2.0), env.pos("p", (1,), base=1e6), env.pos("mu", (1,), base=1.7e-3)
        m, r1 = env.pos("m", (nn,), base=1.0), env.pos("r", (1,), base=1020.0)
        r = np.array([flat(r1)[0]] * nn, dtype=float if env.real else object)
        o = env.comp(SimpleHose, num_nodes=nn, symopts=O).run(
            {"hose_diameter": D, "hose_length": L, "hose_design_pressure": p, "mdot_coolant": m, "rho_coolant": r, "mu_coolant": mu})
        A = PI * D ** 2 / 4
        Re = m * D / (A * mu)
        U = m / (r * A)
        env.eq("pressure drop with Blasius friction", (o["delta_p"] * 2 * D) ** 4 * Re, (0.3164 * r * U ** 2 * L) ** 4)
        t = D * p / (2 * O["hose_operating_stress"])
        env.eq("weight is wall plus contained coolant", o["component_weight"], PI * (D + t) * t * L * O["hose_density"] + A * L * r1)
    return fn


def noint(path, c):
    return isinstance(c, (Integrator, om.BalanceComp))


def onlyint(path, c):
    return not isinstance(c, (Integrator, om.BalanceComp))


SPEC = {"*rhs:*": "const", "*q_in": (None, None), "*T*": (100, 2000), "*duration": (0, None), "*": (1e-6, 1e6)}
GROUPS = {
    "component": (T.LiquidCooledComp, "T", dict(specific_heat_object=500.0, specific_heat_coolant=3000.0), "hex", "mass", ("base", "dTdt"), 500.0, 3000.0, 1.0),
    "component/default": (T.LiquidCooledComp, "T", {}, "hex", "mass", ("base", "dTdt"), 921.0, 3801.0, 1.0),
    "motor": (LiquidCooledMotor, "T", dict(motor_specific_heat=600.0, coolant_specific_heat=3100.0, case_cooling_coefficient=900.0), "hex", "motor_weight", ("hex", "dTdt"), 600.0, 3100.0, 1.0),
    "motor/default": (LiquidCooledMotor, "T", {}, "hex", "motor_weight", ("hex", "dTdt"), 921.0, 3801.0, 1.0),
    "battery": (LiquidCooledBattery, "T", dict(cell_specific_heat=700.0, coolant_specific_heat=2900.0, battery_weight_fraction=0.5, cell_mass=0.05, cell_kr=0.4, cell_diameter=0.03,
                                               cell_height=0.08, fluid_k=0.5, nusselt=5.0), "hex", "battery_weight", ("hex", "dTdt"), 700.0, 2900.0, 0.5),
    "battery/default": (LiquidCooledBattery, "T", {}, "hex", "battery_weight", ("hex", "dTdt"), 875.0, 3801.0, 0.65),
}


def cooled(which, nn, steady, part):
    cls, st, opts, hx, mass, rate, c_obj, c_cool, share = GROUPS[which]

    def fn(env):
        g = env.group(lambda: cls(num_nodes=nn, quasi_steady=steady, **opts), key=("cool", which, nn, steady, part),
                      opaque=None if steady else (noint if part == "heat" else onlyint), spec=SPEC)
        v = lambda n, u: flat(g.val(n, u))
        if part == "integral":
            check_state(env, v("T_initial", "K")[0], v("T", "K"), v("T_final", "K")[0], flat(g.inval("ode_integ.dTdt", "K/s")), v("ode_integ.duration", "s")[0], nn, "temperature")
            env.eq("integrates the computed rate", flat(g.inval("ode_integ.dTdt", "K/s")), v(".".join(rate), "K/s"))
            return
        q = v("mdot_coolant", "kg/s") * c_cool * (v("T_out", "K") - v("T_in", "K"))
        env.eq("coolant receives the exchanged heat", q, v("hex.q", "W"))
        env.eq("the exchanger sees the object's temperature", flat(g.inval("hex." + {"component": "T_surface", "motor": "T", "battery": "T_battery"}[which.split("/")[0]], "K")), v("T", "K"))
        if steady:
            if which.startswith("component"):
                env.eq("balance is heat in minus heat out", flat(g.residual("T")) ** 2, (v("q_in", "W") - q) ** 2)
            else:
                r = v(".".join(rate), "K/s")
                env.eq("rate vanishes exactly when nothing is stored", r * c_obj * v(mass, "kg") * share, v("q_in", "W") - q)
                env.eq("balance on the rate", flat(g.residual("T")) ** 2, r ** 2)
        else:
            env.eq("object stores the heat that does not reach the coolant", v(".".join(rate), "K/s") * c_obj * v(mass, "kg") * share, v("q_in", "W") - q)
    return fn


CORE = {"component": (T.ConstantSurfaceTemperatureColdPlate_NTU, {"specific_heat_coolant": "specific_heat", "specific_heat_object": None}, {"T": "T_surface"}, ("T_out", "q")),
        "motor": (MotorCoolingJacket, {}, {}, ("T_out", "dTdt", "q")),
        "battery": (BandolierCoolingSystem, {}, {"T": "T_battery"}, ("T_out", "dTdt", "q", "T_core", "T_surface"))}
CORE_IN = {"component": ("T_in", "T", "n_parallel", "channel_width", "channel_height", "channel_length", "mdot_coolant"),
           "motor": ("q_in", "T_in", "T", "power_rating", "mdot_coolant", "motor_weight"),
           "battery": ("q_in", "mdot_coolant", "T_in", "T", "battery_weight", "n_cpb", "t_channel")}


def core(which, nn, steady):
    """the assembled element exchanges exactly what its cooling model exchanges with the same options and inputs"""
    cls, st, opts = GROUPS[which][:3]
    k = which.split("/")[0]
    cc, on, names, outs = CORE[k]

    def fn(env):
        g = env.group(lambda: cls(num_nodes=nn, quasi_steady=steady, **opts), key=("core", which, nn, steady), opaque=None if steady else noint, spec=SPEC)
        h = env.comp(cc, num_nodes=nn, **{on.get(a, a): b for a, b in opts.items() if on.get(a, a)})
        o = h.run({names.get(a, a): g.val(a, UNITS.get(a)) for a in CORE_IN[k]})
        for a in outs:
            env.eq("%s as the cooling model gives it" % a, flat(g.val("hex." + a, UNITS.get(a, "K") if a != "q" else "W")), flat(o[a]))
    return fn


UNITS = {"T_in": "K", "T": "K", "channel_width": "m", "channel_height": "m", "channel_length": "m", "mdot_coolant": "kg/s", "q_in": "W", "power_rating": "W",
         "motor_weight": "kg", "battery_weight": "kg", "t_channel": "m", "dTdt": "K/s", "n_parallel": None, "n_cpb": None}


def reservoir(nn, part):
    def fn(env):
        g = env.group(lambda: T.CoolantReservoir(num_nodes=nn), key=("resv", nn, part), opaque=noint if part == "heat" else onlyint, spec=SPEC)
        v = lambda n, u: flat(g.val(n, u))
        if part == "heat":
            env.eq("warms by the enthalpy absorbed", v("rate.dTdt", "K/s") * v("mass", "kg"), v("mdot_coolant", "kg/s") * (v("T_in", "K") - v("T_out", "K")))
        else:
            env.eq("integrates the computed rate", flat(g.inval("ode_integ.dTdt", "K/s")), v("rate.dTdt", "K/s"))
            check_state(env, v("T_initial", "K")[0], v("T_out", "K"), v("T_final", "K")[0], flat(g.inval("ode_integ.dTdt", "K/s")), v("ode_integ.duration", "s")[0], nn, "temperature")
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    for nn in (1, 3) + pick(tier, (), (5, 7, 11), (5, 7, 9, 11)):
        n = "/nn%d" % nn
        for nme, f in (("manifold", manifold), ("merge", merge), ("perfect", perfect), ("rates", rates), ("pump", pump), ("hose", hose)):
            out.append(Semantic(nme + n, f(nn)))
        for nme, f in (("cold plate", plate), ("battery ribbon", bandolier), ("motor jacket", jacket)):
            for s in (1, -1):
                out.append(Semantic("%s/%s%s" % (nme, "warmer" if s > 0 else "colder", n), f(nn, s)))
        for w in GROUPS:
            out.append(Semantic("cooled/%s/steady%s" % (w, n), cooled(w, nn, True, "heat")))
            for st in (True, False):
                out.append(Semantic("cooled/%s/%s/options%s" % (w, "steady" if st else "unsteady", n), core(w, nn, st)))
            out.append(Semantic("cooled/%s/unsteady%s" % (w, n), cooled(w, nn, False, "heat")))
            if nn > 1:
                out.append(Semantic("cooled/%s/integral%s" % (w, n), cooled(w, nn, False, "integral")))
        out.append(Semantic("reservoir" + n, reservoir(nn, "heat")))
        if nn > 1:
            out.append(Semantic("reservoir/integral" + n, reservoir(nn, "integral")))
    return out
