import numpy as np
from openconcept.thermal import heat_exchanger as X
from sx.core import Semantic
from .lib import flat, pick

TITLE = "Heat exchangers conserve energy and never beat the ideal limit"
BOUNDS = ["1 to 3 and 11 analysis points (thorough 5; where a component branches, the first combinations at 11); all positive flows, specific heats, conductances, geometry and fouling factors, hot inlet "
          "warmer than cold inlet; cold side limiting, hot side limiting and both equal"]
S = ("cold", "hot")


def streams(env, nn):
    d = {}
    for s, b in zip(S, (1.5, 0.2)):
        d["mdot_" + s] = env.pos("mdot_" + s, (nn,), base=b)
        d["cp_" + s] = env.pos("cp_" + s, (1,), base=1000.0)
    tc = env.inp("T_in_cold", (nn,), 100, 1000, base=300.0)
    dT = env.inp("dT", (nn,), 0.0, 500, base=50.0)
    d["T_in_cold"], d["T_in_hot"] = tc, tc + dT
    return d


def exchange(nn, order):
    """NTU -> effectiveness -> heat -> outlet temperatures"""
    def fn(env):
        d = streams(env, nn)
        if order == "equal":
            d["cp_hot"] = d["mdot_cold"][:1] * d["cp_cold"] / d["mdot_hot"][:1]
        C = {s: d["mdot_" + s] * d["cp_" + s] for s in S}
        if order != "equal":
            a, b = ("cold", "hot") if order == "cold limits" else ("hot", "cold")
            for i in range(nn):
                env.assume(C[a][i], "<", C[b][i])
            cmin = C[a]
        else:
            cmin = C["cold"]
        UA = env.pos("UA", (nn,), base=500.0)
        o = {k: np.array(v) for k, v in env.comp(X.NTUMethod, num_nodes=nn).run(dict(UA_overall=UA, **d)).items()}
        env.eq("transfer units are conductance over the smaller capacity rate", o["NTU"] * cmin, UA)
        env.eq("largest possible heat", o["heat_max"], cmin * (d["T_in_hot"] - d["T_in_cold"]))
        env.eq("capacity ratio", o["C_ratio"] * (C["hot"] + C["cold"] - cmin), cmin)
        env.le("capacity ratio at most one", o["C_ratio"], 1)
        env.gt("capacity ratio positive", o["C_ratio"], 0)
        eff = env.inp("eff", (nn,), 0, 1, base=0.6)
        q = np.array(env.comp(X.NTUEffectivenessActualHeatTransfer, num_nodes=nn).run({"effectiveness": eff, "heat_max": o["heat_max"]})["heat_transfer"])
        env.eq("heat is the effective share of the largest possible", q, eff * o["heat_max"])
        t = {k: np.array(v) for k, v in env.comp(X.OutletTemperatures, num_nodes=nn).run(dict(heat_transfer=q, **d)).items()}
        env.eq("cold stream gains the heat", C["cold"] * (t["T_out_cold"] - d["T_in_cold"]), q)
        env.eq("hot stream loses the heat", C["hot"] * (d["T_in_hot"] - t["T_out_hot"]), q)
        for s in S:
            env.ge("%s outlet not below the cold inlet" % s, t["T_out_" + s], d["T_in_cold"])
            env.le("%s outlet not above the hot inlet" % s, t["T_out_" + s], d["T_in_hot"])
    return fn


def effectiveness(nn):
    def fn(env):
        N, Cr = env.inp("NTU", (nn,), 1e-3, 100, base=2.0), env.inp("Cr", (nn,), 1e-3, 1, base=0.5)
        e = env.comp(X.CrossFlowNTUEffectiveness, num_nodes=nn).run({"NTU": N, "C_ratio": Cr})["effectiveness"]
        env.ge("not negative", e, 0)
        env.le("at most one", e, 1)
        x = N ** 0.78 * Cr
        ex = np.array([env.math("exp", -v) for v in flat(x)])
        env.eq("cross-flow relation", [env.math("log", 1 - v) for v in flat(e)], flat(N ** 0.22 / Cr) * (ex - 1))
    return fn


def conductance(nn, fouled):
    def fn(env):
        d, so = {}, {}
        for s in S:
            d["h_conv_" + s] = env.pos("h_" + s, (nn,), base=100.0)
            d["heat_transfer_area_" + s] = env.pos("A_" + s, (1,), base=3.0)
            d["eta_overall_" + s] = env.inp("eta_" + s, (nn,), 0.01, 1, base=0.8)
            if fouled:
                so["fouling_factor_" + s] = env.inp("foul_" + s, (), 0, 10, base=1e-3 if s == "hot" else 3e-3)
        UA = env.comp(X.UAOverall, num_nodes=nn, symopts=so).run(d)["UA_overall"]
        R = 0
        for s in S:
            A = d["heat_transfer_area_" + s] * d["eta_overall_" + s]
            R = R + 1 / (d["h_conv_" + s] * A) + (so["fouling_factor_" + s] / A if fouled else 0)
        env.eq("resistances of both sides in series", UA * R, 1 + 0 * UA)
    return fn


def film(nn):
    """hydraulic diameter, Reynolds, Nusselt and film coefficient per side, with the fin efficiency"""
    def fn(env):
        c = {s: {k: env.pos("%s_%s" % (k, s), (nn,) if k in ("mdot", "j") else (1,), base=b)
                 for k, b in dict(mdot=0.5, mu=1e-5, xs_area=0.1, dh=1e-3, j=1e-2, k=0.3, cp=1000.0, fin_area_ratio=0.9, channel_height=1e-2).items()} for s in S}
        g = lambda *ks: {"%s_%s" % (k, s): c[s][k] for s in S for k in ks}
        re = {k: np.array(v) for k, v in env.comp(X.HydraulicDiameterReynoldsNumber, num_nodes=nn).run(g("mdot", "mu", "xs_area", "dh")).items()}
        nu = {k: np.array(v) for k, v in env.comp(X.NusseltFromColburnJ, num_nodes=nn).run(dict(g("j", "k", "mu", "cp"), **re)).items()}
        h = {k: np.array(v) for k, v in env.comp(X.ConvectiveCoefficient, num_nodes=nn).run(dict(g("dh", "k"), **nu)).items()}
        for s in S:
            x = c[s]
            env.eq("%s Reynolds number" % s, re["Re_dh_" + s] * x["xs_area"] * x["mu"], x["mdot"] * x["dh"])
            env.eq("%s Colburn relation" % s, nu["Nu_dh_" + s] ** 3 * x["k"], x["j"] ** 3 * re["Re_dh_" + s] ** 3 * x["mu"] * x["cp"])
            env.eq("%s film coefficient" % s, h["h_conv_" + s] * x["dh"], nu["Nu_dh_" + s] * x["k"])
    return fn


def fins(nn):
    def fn(env):
        d = {"fin_thickness": env.inp("t", (1,), 1e-5, 1e-2, base=1e-4), "material_k": env.inp("k", (1,), 1, 500, base=190.0)}
        for s in S:
            d["h_conv_" + s] = env.inp("h_" + s, (nn,), 1, 1e5, base=200.0)
            d["fin_area_ratio_" + s] = env.inp("r_" + s, (1,), 0, 1, base=0.9)
            d["channel_height_" + s] = env.inp("l_" + s, (1,), 1e-4, 1, base=1e-2)
        o = env.comp(X.FinEfficiency, num_nodes=nn).run(d)
        for s in S:
            e = flat(o["eta_overall_" + s])
            for i in range(nn):
                L = flat(d["channel_height_" + s])[0] / 2
                m = (2 * flat(d["h_conv_" + s])[i] / flat(d["material_k"])[0] / flat(d["fin_thickness"])[0]) ** 0.5
                r = flat(d["fin_area_ratio_" + s])[0]
                env.eq("%s surface efficiency" % s, (e[i] - (1 - r)) * m * L, r * env.math("tanh", m * L))
            env.le("%s at most one" % s, e, 1)
            env.gt("%s positive" % s, e, 0)
    return fn


def pressure(nn):
    def fn(env):
        d = {"length_overall": env.pos("L", (1,), base=0.3), "width_overall": env.pos("W", (1,), base=0.5)}
        so = {}
        for s in S:
            for k, sh, b in (("f", nn, 0.05), ("mdot", nn, 0.5), ("rho", nn, 1.2), ("dh", 1, 1e-3), ("xs_area", 1, 0.1)):
                d["%s_%s" % (k, s)] = env.pos("%s_%s" % (k, s), (sh,), base=b)
            so["Kc_" + s], so["Ke_" + s] = env.inp("Kc" + s, (), 0, 2, base=0.3), env.inp("Ke" + s, (), -1, 1, base=-0.1)
        o = env.comp(X.PressureDrop, num_nodes=nn, symopts=so).run(d)
        for s, L in zip(S, ("length_overall", "width_overall")):
            G = d["mdot_" + s] / d["xs_area_" + s]
            env.eq("%s loss is dynamic pressure times entry, exit and friction losses" % s, o["delta_p_" + s] * 2 * d["rho_" + s] * d["dh_" + s],
                   -G ** 2 * ((so["Kc_" + s] + so["Ke_" + s]) * d["dh_" + s] + 4 * d[L] * d["f_" + s]))
    return fn


def geometry(env):
    d = {k: env.pos(k, (1,), base=b) for k, b in dict(channel_width_hot=1e-3, channel_height_hot=1e-3, fin_length_hot=6e-3, channel_width_cold=1e-3,
         channel_height_cold=1.2e-2, fin_length_cold=6e-3, fin_thickness=1e-4, plate_thickness=2e-4, case_thickness=2e-3, n_wide_cold=100.0, n_long_cold=3.0,
         n_tall=20.0, material_rho=2700.0).items()}
    o = env.comp(X.OffsetStripFinGeometry).run(d)
    env.eq("frontal area is width times height", o["frontal_area"], o["width_overall"] * o["height_overall"])
    for s, across in zip(S, ("width_overall", "length_overall")):
        along = "length_overall" if s == "cold" else "width_overall"
        w, h = d["channel_width_" + s], d["channel_height_" + s]
        n = o[across] / (w + d["fin_thickness"])
        env.eq("%s flow area is channels times channel area" % s, o["xs_area_" + s], n * d["n_tall"] * w * h)
        env.eq("%s heat-transfer area is wetted perimeter times length" % s, o["heat_transfer_area_" + s], n * d["n_tall"] * 2 * (w + h) * o[along])
        env.eq("%s contraction ratio is flow area over face area" % s, o["contraction_ratio_" + s] * o[across] * o["height_overall"], o["xs_area_" + s])
        env.lt("%s flow area smaller than the face" % s, o["contraction_ratio_" + s], 1)
        env.eq("%s fin share of the area" % s, o["fin_area_ratio_" + s] * (w + h), h)
        env.eq("%s channel aspect ratio" % s, o["alpha_" + s] * h, w)
        env.eq("%s thickness to fin length" % s, o["delta_" + s] * d["fin_length_" + s], d["fin_thickness"])
        env.eq("%s thickness to channel width" % s, o["gamma_" + s] * w, d["fin_thickness"])
    V = o["length_overall"] * o["width_overall"] * o["height_overall"]
    env.gt("weighs something", o["component_weight"], 0 * V)
    wc, hc, lc, wh, hh, t = (d[k] for k in ("channel_width_cold", "channel_height_cold", "fin_length_cold", "channel_width_hot", "channel_height_hot", "fin_thickness"))
    env.eq("cold hydraulic diameter (Manglik and Bergles)", o["dh_cold"] * (2 * (wc * lc + hc * lc + t * hc) + t * wc), 4 * wc * hc * lc)
    env.eq("hot hydraulic diameter", o["dh_hot"] * 2 * (wh + hh), 4 * wh * hh)
    plates = 2 * d["n_tall"] * d["plate_thickness"] * o["length_overall"] * o["width_overall"]
    fins = sum(d["n_tall"] * o[across] / (w + t) * o[along] * t * (w + h + t) for across, along, w, h in (
        ("width_overall", "length_overall", wc, hc), ("length_overall", "width_overall", wh, hh)))
    case = d["case_thickness"] * o["length_overall"] * 2 * (o["height_overall"] + o["width_overall"])
    env.eq("weight is the metal in plates, fins and case", o["component_weight"], d["material_rho"] * (plates + fins + case))


def correlations(nn):
    """friction and Colburn factors of both sides follow the same published relations (Manglik and Bergles 1995, eqs. 34 and 35)"""
    def fn(env):
        d = {}
        for i, s in enumerate(S):
            d["Re_dh_" + s] = env.pos("Re_" + s, (nn,), base=500.0 + 300 * i)
            for k, b in (("alpha", 0.5), ("delta", 0.03), ("gamma", 0.06)):
                d["%s_%s" % (k, s)] = env.pos("%s_%s" % (k, s), (1,), base=b * (1 + 0.3 * i))
        o = env.comp(X.OffsetStripFinData, num_nodes=nn).run(d)
        for s in S:
            Re, al, de, ga = (d[k + "_" + s] for k in ("Re_dh", "alpha", "delta", "gamma"))
            j = 0.6522 * Re ** -0.5403 * al ** -0.1541 * de ** 0.1499 * ga ** -0.0678 * (1 + 5.269e-5 * Re ** 1.340 * al ** 0.504 * de ** 0.456 * ga ** -1.055) ** 0.1
            f = 9.6243 * Re ** -0.7422 * al ** -0.1856 * de ** 0.3053 * ga ** -0.2659 * (1 + 7.669e-8 * Re ** 4.429 * al ** 0.920 * de ** 3.767 * ga ** 0.236) ** 0.1
            env.eq("%s Colburn factor" % s, o["j_" + s], j)
            env.eq("%s friction factor" % s, o["f_" + s], f)
    return fn


GSPEC = {"*T_in_cold": (200, 400), "*T_in_hot": (400, 600), "*": (1e-6, 1e6)}


def group(nn):
    """the assembled exchanger: one chain from geometry to outlet temperatures"""
    def fn(env):
        g = env.group(lambda: X.HXGroup(num_nodes=nn), key=("hx", nn), spec=GSPEC, opaque=lambda p, c: isinstance(c, X.OffsetStripFinData))
        v = lambda n, u=None: flat(g.val(n, u))
        q = v("heat_transfer", "W")
        C = {s: v("mdot_" + s, "kg/s") * v("cp_" + s, "J/kg/K") for s in S}
        env.eq("cold stream gains the heat", C["cold"] * (v("T_out_cold", "K") - v("T_in_cold", "K")), q)
        env.eq("hot stream loses the heat", C["hot"] * (v("T_in_hot", "K") - v("T_out_hot", "K")), q)
        env.eq("heat is effectiveness times the ideal", q, v("effectiveness") * v("heat_max", "W"))
        R = 0
        for s in S:
            env.eq("%s film" % s, v("h_conv_" + s, "W/m**2/K") * v("dh_" + s, "m"), v("Nu_dh_" + s) * v("k_" + s, "W/m/K"))
            env.eq("%s Reynolds" % s, v("Re_dh_" + s) * v("xs_area_" + s, "m**2") * v("mu_" + s, "kg/m/s"), v("mdot_" + s, "kg/s") * v("dh_" + s, "m"))
            R = R + 1 / (v("h_conv_" + s, "W/m**2/K") * v("heat_transfer_area_" + s, "m**2") * v("eta_overall_" + s))
        env.eq("series conductance", v("UA_overall", "W/K") * R, 1 + 0 * R)
        env.eq("transfer units use the assembled conductance", v("NTU") ** 2 * 0 + v("NTU") * v("heat_max", "W"), v("UA_overall", "W/K") * (v("T_in_hot", "K") - v("T_in_cold", "K")))
        for dv in ("n_wide_cold", "n_long_cold", "n_tall"):
            env.eq("design variable %s reaches the core" % dv, v(dv), v("ac|propulsion|thermal|hx|" + dv))
        env.eq("core height", v("height_overall", "m"), v("n_tall") * (2 * (v("fin_thickness", "m") + v("plate_thickness", "m")) + v("channel_height_cold", "m")
                                                                      + v("channel_height_hot", "m")))
        env.eq("core width", v("width_overall", "m"), v("n_wide_cold") * (v("fin_thickness", "m") + v("channel_width_cold", "m")))
        env.eq("core length", v("length_overall", "m"), v("n_long_cold") * v("fin_length_cold", "m"))
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = [Semantic("geometry", geometry)]
    for nn in (1, 2) + pick(tier, (), (3, 11), (3, 4, 5, 11)):
        n = "/nn%d" % nn
        for o in ("cold limits", "hot limits") + (("equal",) if nn == 1 else ()):
            out.append(Semantic("exchange/%s%s" % (o, n), exchange(nn, o)))
        for f in (False, True):
            out.append(Semantic("conductance%s%s" % ("/fouled" if f else "", n), conductance(nn, f)))
        out += [Semantic("film" + n, film(nn)), Semantic("pressure" + n, pressure(nn)), Semantic("group" + n, group(nn), budget=200)]
        out.append(Semantic("correlations" + n, correlations(nn)))
        if nn == 1 or t:
            out += [Semantic("effectiveness" + n, effectiveness(nn)), Semantic("fins" + n, fins(nn))]
    return out
