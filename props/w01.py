import numpy as np
from openconcept import weights as W
from sx.core import Semantic
from .lib import pick

TITLE = "Empty weight is exactly the sum of its parts"
BOUNDS = ["each aircraft class (single turboprop, twin series hybrid, jet transport, blended wing body): all aircraft descriptions; default "
          "option values and two further sets in which every option differs from its default and from the others",
          "published component correlations (Raymer, Roskam, Torenbeek, FLOPS, Bradley) as restated here in the documented units; the turboprop landing-gear correlation is only summed, not restated"]

STRUCT = {"Jet": ["W_wing", "W_hstab", "W_vstab", "W_fuselage", "W_mlg", "W_nlg", "W_nacelle"],
          "BWB": ["W_wing", "W_cabin", "W_aftbody", "W_mlg", "W_nlg", "W_nacelle"],
          "TP": ["W_wing", "W_fuselage", "W_nacelle", "W_empennage", "W_gear"]}
REST = ["W_engines", "W_thrust_rev", "W_eng_control", "W_fuelsystem", "W_eng_start", "W_furnishings", "W_flight_controls", "W_avionics",
        "W_electrical", "W_ac_pressurize_antiice", "W_oxygen", "W_APU"]
DEF = {"structural_fudge": 1.2, "total_fudge": 1.15, "wing_weight_multiplier": 1.0, "n_ult": 3.75, "n_land_ult": 4.2, "control_surface_area_frac": 0.1,
       "fuselage_width_frac": 0.5, "K_uht": 1.0, "elevator_area_frac": 0.2, "T_tail": False, "K_door": 1, "K_lg": 1, "kneeling_main_gear_parameter": 1.0,
       "kneeling_nose_gear_parameter": 1.0, "K_lav": 0.7, "K_buf": 4.0, "coeff_fc": 1.2 * 0.64, "coeff_avionics": 0.5, "cabin_length_frac": 0.75,
       "APU_weight_frac": 0.0085}
ALT = [{"structural_fudge": 1.37, "total_fudge": 0.91, "wing_weight_multiplier": 1.19, "n_ult": 3.1, "n_land_ult": 4.7, "control_surface_area_frac": 0.17,
        "fuselage_width_frac": 0.41, "K_uht": 1.143, "elevator_area_frac": 0.33, "T_tail": True, "K_door": 1.06, "K_lg": 1.12, "kneeling_main_gear_parameter": 1.126,
        "kneeling_nose_gear_parameter": 1.15, "K_lav": 0.31, "K_buf": 5.68, "coeff_fc": 0.53, "coeff_avionics": 0.77, "cabin_length_frac": 0.61,
        "APU_weight_frac": 0.0061},
       {"structural_fudge": 0.83, "total_fudge": 1.27, "wing_weight_multiplier": 0.71, "n_ult": 4.4, "n_land_ult": 3.9, "control_surface_area_frac": 0.26,
        "fuselage_width_frac": 0.73, "K_uht": 1.07, "elevator_area_frac": 0.14, "T_tail": False, "K_door": 1.25, "K_lg": 1.03, "kneeling_main_gear_parameter": 1.04,
        "kneeling_nose_gear_parameter": 1.09, "K_lav": 1.11, "K_buf": 1.02, "coeff_fc": 0.92, "coeff_avionics": 0.29, "cabin_length_frac": 0.88,
        "APU_weight_frac": 0.0117}]
BWB_NOT = {"fuselage_width_frac", "K_uht", "elevator_area_frac", "T_tail", "K_door", "K_lg", "cabin_length_frac"}
SPEC = {"*c4sweep": (0, 1.2), "*taper*": (0.05, 1), "*toverc": (0.02, 0.5), "*AR": (1, 40), "*Mach_max": (0.1, 2), "*num_engines": (1, 8), "*num_*": (1, 900),
        "*S_ref": (1, 2e4), "*": (0.5, 1e6)}


def jet_opts(cls, i):
    o = dict(DEF, structural_fudge=1.0, total_fudge=1.0) if cls == "BWBEmptyWeight" else dict(DEF)
    given = dict(ALT[i - 1]) if i else {}
    if cls == "BWBEmptyWeight":
        given = {k: v for k, v in given.items() if k not in BWB_NOT}
    return dict(o, **given), given


def group(env, cls, i):
    o, given = jet_opts(cls, i)
    return o, env.group(lambda: getattr(W, cls)(**given), key=(cls, i), spec=SPEC)


def jet_sum(cls, kind, i):
    """the roll-up, and every component weight it uses is the one reported"""
    def fn(env):
        o, g = group(env, cls, i)
        s = o["wing_weight_multiplier"] * g.val("W_wing", "lb")
        for w in STRUCT[kind][1:]:
            s = s + g.val(w, "lb")
        env.eq("structure", g.val("W_structure", "lb"), o["structural_fudge"] * s)
        t = o["structural_fudge"] * s
        for w in REST:
            t = t + g.val(w, "lb")
        env.eq("operating empty weight", g.val("OEW", "lb"), o["total_fudge"] * t)
    return fn


def jet_parts(cls, i):
    def fn(env):
        o, g = group(env, cls, i)
        V = lambda n, u=None: g.val("ac|" + n, u)
        cos = lambda x: env.math("cos", x[0])
        mt, mlw, T, N = V("weights|MTOW", "lb"), V("weights|MLW", "lb"), V("propulsion|engine|rating", "lbf"), V("propulsion|num_engines")
        S, AR, sw, tap, tc = V("geom|wing|S_ref", "ft**2"), V("geom|wing|AR"), V("geom|wing|c4sweep", "rad"), V("geom|wing|taper"), V("geom|wing|toverc")
        nu, nl = o["n_ult"], o["n_land_ult"]
        env.eq("wing", g.val("W_wing", "lb") * cos(sw), 0.0051 * (mt * nu) ** 0.557 * S ** 0.649 * AR ** 0.5 * tc ** -0.4 * (1 + tap) ** 0.1
               * (o["control_surface_area_frac"] * S) ** 0.1)
        if cls == "JetTransportEmptyWeight":
            h, L, swet = V("geom|fuselage|height", "ft"), V("geom|fuselage|length", "ft"), V("geom|fuselage|S_wet", "ft**2")
            Sh, ARh, swh, lh = V("geom|hstab|S_ref", "ft**2"), V("geom|hstab|AR"), V("geom|hstab|c4sweep", "rad"), V("geom|hstab|c4_to_wing_c4", "ft")
            Sv, ARv, swv, lv = V("geom|vstab|S_ref", "ft**2"), V("geom|vstab|AR"), V("geom|vstab|c4sweep", "rad"), V("geom|vstab|c4_to_wing_c4", "ft")
            env.eq("horizontal tail", g.val("W_hstab", "lb") * cos(swh) * lh, 0.0379 * o["K_uht"] * (1 + h * o["fuselage_width_frac"] / (Sh * ARh) ** 0.5) ** -0.25
                   * mt ** 0.639 * nu ** 0.1 * Sh ** 0.75 * (0.3 * lh) ** 0.704 * ARh ** 0.166 * (1 + o["elevator_area_frac"]) ** 0.1)
            env.eq("vertical tail", g.val("W_vstab", "lb") * cos(swv), 0.0026 * (2.0 if o["T_tail"] else 1.0) ** 0.225 * mt ** 0.556 * nu ** 0.536
                   * lv ** 0.375 * Sv ** 0.5 * ARv ** 0.35 * V("geom|vstab|toverc") ** -0.5)
            kws = 0.75 * (1 + 2 * tap) / (1 + tap) * (S * AR) ** 0.5 * env.math("tan", sw[0]) / L
            env.eq("fuselage", g.val("W_fuselage", "lb"), 0.328 * o["K_door"] * o["K_lg"] * (mt * nu) ** 0.5 * L ** 0.35 * swet ** 0.302
                   * (1 + kws) ** 0.04 * h ** -0.1)
            vol = np.pi / 4 * h ** 2 * L * o["cabin_length_frac"]
        else:
            env.eq("cabin", g.val("W_cabin", "lb"), 1.803246 * mt ** 0.166552 * V("geom|centerbody|S_cabin", "ft**2") ** 1.061158)
            env.eq("aftbody", g.val("W_aftbody", "lb"), 0.53 * (1 + 0.05 * N) * V("geom|centerbody|S_aftbody", "ft**2") * mt ** 0.2
                   * (V("geom|centerbody|taper_aftbody") + 0.5))
            vol = V("geom|V_pressurized", "ft**3")
        env.eq("main gear", g.val("W_mlg", "lb"), 0.0106 * o["kneeling_main_gear_parameter"] * mlw ** 0.888 * nl ** 0.25 * V("geom|maingear|length", "inch") ** 0.4
               * V("geom|maingear|num_wheels") ** 0.321 * V("geom|maingear|num_shock_struts") ** -0.5 * V("aero|Vstall_land", "kn") ** 0.1)
        env.eq("nose gear", g.val("W_nlg", "lb"), 0.032 * o["kneeling_nose_gear_parameter"] * mlw ** 0.646 * nl ** 0.2 * V("geom|nosegear|length", "inch") ** 0.5
               * V("geom|nosegear|num_wheels") ** 0.45)
        env.eq("nacelles", g.val("W_nacelle", "lb"), 0.065 * T * N)
        env.eq("engines", g.val("W_engines", "lb") * 5.5, T * N)
        env.eq("thrust reversers", g.val("W_thrust_rev", "lb"), 0.034 * T * N)
        env.eq("engine controls", g.val("W_eng_control", "lb"), 0.26 * N * T ** 0.5)
        env.eq("engine starters", g.val("W_eng_start", "lb"), 9.33 * (T / 5.5 / 1e3) ** 1.078 * N)
        wfs = 1.07 * V("weights|W_fuel_max", "lb") ** 0.58 * N ** 0.43 * V("aero|Mach_max") ** 0.34
        env.eq("fuel system", g.val("W_fuelsystem", "lb"), wfs)
        pax, deck, cab = V("num_passengers_max"), V("num_flight_deck_crew"), V("num_cabin_crew")
        env.eq("furnishings", g.val("W_furnishings", "lb"), 55 * deck + 32 * pax + 15 * cab + o["K_lav"] * pax ** 1.33 + o["K_buf"] * pax ** 1.12
               + 109 * (pax * (1 + V("cabin_pressure", "psi")) / 100) ** 0.505 + 0.771 * mt / 1e3)
        env.eq("flight controls", g.val("W_flight_controls", "lb"), o["coeff_fc"] * mt ** (2 / 3))
        wav = o["coeff_avionics"] * (deck * (15 + 0.032e-3 * mt) + N * (5 + 0.006e-3 * mt) + (0.15e-3 + 0.012) * mt)
        env.eq("avionics", g.val("W_avionics", "lb"), wav)
        env.eq("electrical", g.val("W_electrical", "lb"), 1163 * ((g.val("W_fuelsystem", "lb") + g.val("W_avionics", "lb")) / 1e3) ** 0.506)
        n = pax + deck + cab
        env.eq("air conditioning", g.val("W_ac_pressurize_antiice", "lb"), 469 * (1e-4 * vol * n) ** 0.419)
        env.eq("oxygen", g.val("W_oxygen", "lb"), 7 * n ** 0.702)
        env.eq("APU", g.val("W_APU", "lb"), o["APU_weight_frac"] * mt)
    return fn


def engines(cls):
    """twice the engines: per-engine weights double, nothing outside the propulsion and instruments changes"""
    def fn(env):
        g = env.group(lambda: getattr(W, cls)(), key=(cls, "n1"), name="a", spec=dict({"ac|propulsion|num_engines": (1, 8)}, **SPEC))
        names = ["W_engines", "W_thrust_rev", "W_eng_control", "W_eng_start", "W_nacelle"]
        N = np.array(g.val("ac|propulsion|num_engines"))
        a = {n: np.array(g.val(n, "lb")) for n in names}
        h = env.group(lambda: getattr(W, cls)(), key=(cls, "n2"), name="a", spec=dict({"ac|propulsion|num_engines": 2 * N}, **SPEC))
        for n in names:
            env.eq(n + " doubles with the number of engines", h.val(n, "lb"), 2 * a[n])
    return fn


LBKG = 0.45359237


def tp(cls):
    def fn(env):
        g = env.group(lambda: getattr(W, cls)(), key=(cls,), spec=dict({"W_fluids": "const", "structural_fudge": "const", "const*": "const"}, **SPEC))
        s = 0
        for w in STRUCT["TP"]:
            s = s + g.val(w, "lb")
        env.eq("structure", g.val("W_structure", "lb"), s)
        env.eq("adjusted structure", g.val("W_structure_adjusted", "lb"), 1.6 * s)
        t = 1.6 * s
        for w in ["W_fuelsystem", "W_equipment", "W_engine", "W_propeller"] + (["W_motors", "W_generator"] if "Hybrid" in cls else []):
            t = t + g.val(w, "lb")
        env.eq("operating empty weight", g.val("OEW", "lb"), t + 20 / LBKG)
        # component correlations
        V = lambda n, u=None: g.val("ac|" + n, u)
        nu = 5.7
        mt, S, AR, c = V("weights|MTOW", "lb"), V("geom|wing|S_ref", "ft**2"), V("geom|wing|AR"), env.math("cos", V("geom|wing|c4sweep", "rad")[0])
        q, wf, L = V("q_cruise", "lb*ft**-2"), V("weights|W_fuel_max", "lb"), V("geom|fuselage|length", "ft")
        env.eq("wing", g.val("W_wing", "lb"), 0.036 * S ** 0.758 * wf ** 0.0035 * (AR / c ** 2) ** 0.6 * q ** 0.006 * V("geom|wing|taper") ** 0.04
               * (100 * V("geom|wing|toverc") / c) ** -0.3 * (nu * mt) ** 0.49)
        env.eq("empennage", g.val("W_empennage", "lb"), 0.04 * (nu * (V("geom|vstab|S_ref", "ft**2") + V("geom|hstab|S_ref", "ft**2")) ** 2) ** 0.75)
        h, w = V("geom|fuselage|height", "ft"), V("geom|fuselage|width", "ft")
        env.eq("fuselage", g.val("W_fuselage", "lb"), 0.052 * V("geom|fuselage|S_wet", "ft**2") ** 1.086 * (nu * mt) ** 0.177
               * V("geom|hstab|c4_to_wing_c4", "ft") ** -0.051 * (L / h) ** -0.072 * q ** 0.241 + 11.9 * (np.pi * (w + h) / 2 * L * 0.8 * 8) ** 0.271)
        env.eq("nacelle", g.val("W_nacelle", "lb"), 2.5 * g.val("P_TO", "hp") ** 0.5)
        env.eq("fuel system", g.val("W_fuelsystem", "lb"), 2.49 * (wf / 6.55) ** 0.726 * 0.5 ** 0.363)
        pax, wav = V("num_passengers_max"), 2.117 * 110 ** 0.933
        env.eq("equipment", g.val("W_equipment", "lb"), 0.23 * mt ** 0.666 + 0.2673 * (L * (S * AR) ** 0.5) ** 0.937 + wav
               + 12.57 * (g.val("W_fuelsystem", "lb") + wav) ** 0.51 + 0.265 * mt ** 0.52 * pax ** 0.68 * wav ** 0.17 * 0.95 + 30 + 1.2 * pax
               + 0.412 * pax ** 1.145 * mt ** 0.489 + 0.003 * mt)
    return fn


def motor_nacelle(env):
    P = env.pos("P", (1,), base=500.0)
    o = env.comp("openconcept.weights.weights_turboprop.NacelleWeight_MultiTurboprop").run({"P_TO": P})
    env.eq("nacelle of a multi-engine turboprop", o["W_nacelle"], 0.14 * P)


def tp_parts(env):
    """component correlations at any load factor and fuel density"""
    M = "openconcept.weights.weights_turboprop."
    nu, kf = env.pos("n_ult", base=4.7), env.pos("Kfsp", base=6.7)

    def run(cls, names, **symopts):
        d = {n: env.pos(n, (1,), base=b) for n, b in names.items()}
        o = env.comp(M + cls, symopts=symopts).run(d)
        return {n.split("|")[-2] + "|" + n.split("|")[-1] if n.count("|") > 1 else n: v for n, v in d.items()}, o
    v, o = run("WingWeight_SmallTurboprop", {"ac|weights|MTOW": 8000.0, "ac|weights|W_fuel_max": 2000.0, "ac|geom|wing|S_ref": 200.0, "ac|geom|wing|AR": 9.0, "ac|geom|wing|c4sweep": 0.1,
                                             "ac|geom|wing|taper": 0.6, "ac|geom|wing|toverc": 0.13, "ac|q_cruise": 60.0}, n_ult=nu)
    c = env.math("cos", v["wing|c4sweep"][0])
    env.assume(c, ">", 0)
    env.eq("wing", o["W_wing"], 0.036 * v["wing|S_ref"] ** 0.758 * v["weights|W_fuel_max"] ** 0.0035 * (v["wing|AR"] / c ** 2) ** 0.6
           * v["ac|q_cruise"] ** 0.006 * v["wing|taper"] ** 0.04 * (100 * v["wing|toverc"] / c) ** -0.3 * (nu * v["weights|MTOW"]) ** 0.49)
    v, o = run("EmpennageWeight_SmallTurboprop", {"ac|geom|hstab|S_ref": 40.0, "ac|geom|vstab|S_ref": 30.0}, n_ult=nu)
    env.eq("empennage", o["W_empennage"], 0.04 * (nu * (v["vstab|S_ref"] + v["hstab|S_ref"]) ** 2) ** 0.75)
    v, o = run("FuselageWeight_SmallTurboprop", {"ac|weights|MTOW": 8000.0, "ac|geom|fuselage|length": 30.0, "ac|geom|fuselage|height": 5.0, "ac|geom|fuselage|width": 4.5,
                                                 "ac|geom|fuselage|S_wet": 400.0, "ac|geom|hstab|c4_to_wing_c4": 18.0, "ac|q_cruise": 60.0}, n_ult=nu)
    env.eq("fuselage", o["W_fuselage"], 0.052 * v["fuselage|S_wet"] ** 1.086 * (nu * v["weights|MTOW"]) ** 0.177 * v["hstab|c4_to_wing_c4"] ** -0.051
           * (v["fuselage|length"] / v["fuselage|height"]) ** -0.072 * v["ac|q_cruise"] ** 0.241
           + 11.9 * (np.pi * (v["fuselage|width"] + v["fuselage|height"]) / 2 * v["fuselage|length"] * 0.8 * 8) ** 0.271)
    v, o = run("FuelSystemWeight_SmallTurboprop", {"ac|weights|W_fuel_max": 2000.0}, Kfsp=kf)
    env.eq("fuel system", o["W_fuelsystem"], 2.49 * (v["weights|W_fuel_max"] / kf) ** 0.726 * 0.5 ** 0.363)
    names = {"ac|weights|MLW": 7000.0, "ac|geom|maingear|length": 3.0, "ac|geom|nosegear|length": 3.0}
    d = {n: env.pos(n, (1,), base=b) for n, b in names.items()}
    a = np.array(env.comp(M + "LandingGearWeight_SmallTurboprop", symopts=dict(n_ult=nu)).run(d)["W_gear"])
    b = env.comp(M + "LandingGearWeight_SmallTurboprop", key="other", symopts=dict(n_ult=2 * nu)).run(dict(d, **{"ac|weights|MLW": d["ac|weights|MLW"] / 2}))["W_gear"]
    env.eq("landing gear depends on the ultimate landing load", a, b)


def harnesses(tier):
    H = [Semantic("turboprop components at any load factor", tp_parts)]
    for cls, kind in (("JetTransportEmptyWeight", "Jet"), ("BWBEmptyWeight", "BWB")):
        for i in pick(tier, (0, 1), (0, 1, 2), (0, 1, 2)):
            H.append(Semantic("%s sum options %d" % (cls, i), jet_sum(cls, kind, i)))
            H.append(Semantic("%s components options %d" % (cls, i), jet_parts(cls, i)))
        H.append(Semantic("%s engine count" % cls, engines(cls)))
    for cls in ("SingleTurboPropEmptyWeight", "TwinSeriesHybridEmptyWeight"):
        H.append(Semantic(cls, tp(cls)))
    H.append(Semantic("multi-engine turboprop nacelle", motor_nacelle))
    return H
