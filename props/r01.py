import numpy as np
from openconcept import aerodynamics as A
from openconcept.aerodynamics import drag_jet_transport as D, drag_BWB as B, CL_max_estimation as CM
from openconcept.geometry import CylinderSurfaceArea
from sx.core import Semantic
from .lib import flat, total, pick

TITLE = "Drag build-up adds up and lift-induced drag follows the polar"
BOUNDS = ["1-3 and 11 nodes (thorough also 5): all flight conditions, geometries, coefficients and option values; transport and blended-wing-body build-ups in "
          "both configurations, with and without the wing, two sets of option values each; Reynolds numbers (based on the laminar length where there is one) above 1e3",
          "wave drag of wing sections: 2-4 sections and every contiguous region of them, uniform thickness ratio or uniform chord (the code integrates their "
          "product numerically); needs OpenAeroStruct to be importable"]
PI = np.pi


def polar(nn, vec):
    def fn(env):
        q, cl = env.pos("q", (nn,), base=5e3), env.inp("CL", (nn,), -3, 3, base=0.5)
        S, c0 = env.pos("S", (1,), base=100.0), env.inp("CD0", (nn if vec else 1,), 0, 1, base=0.02)
        e, AR = env.inp("e", (1,), 0.1, 2, base=0.8), env.inp("AR", (1,), 1, 50, base=10.0)
        o = env.comp(A.PolarDrag, num_nodes=nn, vec_CD0=vec).run({"fltcond|CL": cl, "fltcond|q": q, "ac|geom|wing|S_ref": S, "CD0": c0, "e": e, "ac|geom|wing|AR": AR})["drag"]
        env.eq("drag polar", o * (PI * e * AR), q * S * (c0 * (PI * e * AR) + cl ** 2))
        env.ge("drag is not negative", o, 0)
    return fn


def lift(nn):
    def fn(env):
        q, cl, S = env.pos("q", (nn,), base=5e3), env.inp("CL", (nn,), -3, 3, base=0.5), env.pos("S", (1,), base=100.0)
        env.eq("lift", env.comp(A.Lift, num_nodes=nn).run({"fltcond|CL": cl, "fltcond|q": q, "ac|geom|wing|S_ref": S})["lift"], q * S * cl)
    return fn


def stall(env):
    w, S, cl = env.pos("w", (1,), base=5e4), env.pos("S", (1,), base=100.0), env.inp("CLmax", (1,), 0.1, 10, base=1.5)
    v = env.comp(A.StallSpeed).run({"weight": w, "ac|geom|wing|S_ref": S, "CLmax": cl})["Vstall_eas"]
    env.eq("lift balances weight at the stall speed", 0.5 * 1.225 * v ** 2 * S * cl, w * 9.80665)
    env.gt("stall speed is positive", v, 0)


def stall_lift(env):
    """at the stall speed the lift component itself, at CLmax, carries the weight"""
    w, S, cl = env.pos("w", (1,), base=5e4), env.pos("S", (1,), base=100.0), env.inp("CLmax", (1,), 0.1, 10, base=1.5)
    v = np.array(env.comp(A.StallSpeed).run({"weight": w, "ac|geom|wing|S_ref": S, "CLmax": cl})["Vstall_eas"])
    L = env.comp(A.Lift, num_nodes=1).run({"fltcond|CL": cl, "fltcond|q": 0.5 * 1.225 * v ** 2, "ac|geom|wing|S_ref": S})["lift"]
    env.eq("lift equals weight", L, w * 9.80665)


# --------------------------------------------------------------------------- pieces of the build-up
def log(env, x):
    return np.array([env.math("log", z) for z in flat(x)], dtype=float if env.real else object)


def reynolds(env, U, rho, T, L):
    """Utrue L rho / mu with Sutherland's law for the viscosity"""
    return U * L * rho * (T + 100.4) / (1.458e-6 * T ** 1.5)


def cf(env, re, lam):
    """Spalding's turbulent fit, with Blasius over the laminar fraction"""
    t = lambda r: 0.523 / log(env, 0.06 * r) ** 2
    if lam is None:
        return t(re)
    return t(re) + lam * (1.32824 / (re * lam) ** 0.5 - t(re * lam))


def friction(nn, lam):
    def fn(env):
        O = {"laminar_frac": env.inp("lam", (), 0.01, 1, base=0.2)} if lam else {}
        d = {"L": env.inp("L", (1,), 0.01, 200, base=30.0), "fltcond|Utrue": env.inp("U", (nn,), 1, 1000, base=200.0),
             "fltcond|rho": env.inp("rho", (nn,), 0.01, 2, base=0.5), "fltcond|T": env.inp("T", (nn,), 150, 400, base=250.0)}
        o = np.array(env.comp(D.SkinFrictionCoefficient_JetTransport, num_nodes=nn, symopts=O).run(d)["Cf"])
        re = reynolds(env, d["fltcond|Utrue"], d["fltcond|rho"], d["fltcond|T"], d["L"])
        env.assume(re * O["laminar_frac"] if lam else re, ">", 1e3)
        env.eq("flat-plate friction", o, cf(env, re, O.get("laminar_frac")))
        if not lam:
            env.gt("friction is positive", o, 0)
    return fn


def fus_ff(env):
    L, h, Q = env.pos("L", (1,), base=30.0), env.pos("h", (1,), base=4.0), env.inp("Q", (), 0.5, 3, base=1.1)
    o = env.comp(D.FuselageFormFactor_JetTransport, symopts={"Q_fuselage": Q}).run({"ac|geom|fuselage|length": L, "ac|geom|fuselage|height": h})["FF_fuselage"]
    env.eq("Torenbeek's slender-body form factor", o * L ** 3, Q * (L ** 3 + 2.2 * h * L ** 2 + 3.8 * h ** 3))
    env.ge("form factor never below the interference factor", o, Q)


def wing_ff(env):
    tc, Q = env.inp("tc", (1,), 0, 0.5, base=0.12), env.inp("Q", (), 0.5, 3, base=1.1)
    o = env.comp(D.WingFormFactor_JetTransport, symopts={"Q": Q}).run({"toverc": tc})["FF_wing"]
    env.eq("Torenbeek's wing form factor", o, Q * (1 + 2.7 * tc + 100 * tc ** 4))
    env.ge("form factor never below the interference factor", o, Q)


def flap_cd(env, d, s, c, a, Q):
    return (5.75e-4 * c ** 2 - 7.45e-5 * c + 1.23e-5) * d ** 2 * env.math("cos", s) * a * Q


def flap_drag(c):
    def fn(env):
        O = {"Q_flap": env.inp("Q", (), 0.5, 3, base=1.2), "wing_area_flapped_frac": env.inp("a", (), 0, 1, base=0.8)}
        d, s = env.inp("d", (1,), 0, 60, base=15.0), env.inp("s", (1,), -1.2, 1.2, base=0.4)
        o = env.comp(D.FlapDrag_JetTransport, key=c, flap_chord_frac=c, symopts=O).run({"flap_extension": d, "ac|geom|wing|c4sweep": s})["CD_flap"]
        env.eq("Roskam's flap drag", flat(o)[0], flap_cd(env, flat(d)[0], flat(s)[0], c, O["wing_area_flapped_frac"], O["Q_flap"]))
        env.ge("flaps never reduce drag", o, 0)
    return fn


def clean_cl(env):
    f, c, s = env.inp("f", (), 0.1, 3, base=1.1), env.inp("Cl", (1,), 0, 4, base=1.7), env.inp("s", (1,), -1.2, 1.2, base=0.4)
    o = env.comp(CM.CleanCLmax, symopts={"fudge_factor": f}).run({"ac|aero|airfoil_Cl_max": c, "ac|geom|wing|c4sweep": s})["CL_max_clean"]
    env.eq("Raymer's clean maximum lift", flat(o)[0], f * 0.9 * flat(c)[0] * env.math("cos", flat(s)[0]))


def flap_cl(env):
    O = {"flap_chord_frac": env.inp("c", (), 0, 1, base=0.25), "wing_area_flapped_frac": env.inp("a", (), 0, 1, base=0.8), "slat_chord_frac": env.inp("sc", (), 0, 1, base=0.12),
         "slat_span_frac": env.inp("ss", (), 0, 1, base=0.7), "fudge_factor": env.inp("f", (), 0.1, 3, base=1.1)}
    d, s, tc, c0 = env.inp("d", (1,), 0, 60, base=15.0), env.inp("s", (1,), -1.2, 1.2, base=0.4), env.inp("tc", (1,), 0, 0.3, base=0.12), env.inp("CL", (1,), 0, 4, base=1.5)
    o = env.comp(CM.FlapCLmax, symopts=O).run({"flap_extension": d, "ac|geom|wing|c4sweep": s, "ac|geom|wing|toverc": tc, "CL_max_clean": c0})["CL_max_flap"]
    d, s, tc, c0, o = (flat(x)[0] for x in (d, s, tc, c0, o))
    cs = env.math("cos", s)
    k2 = 0.4 + 0.0234 * d - 2.04e-4 * d ** 2
    sec = (1 + 2.33 * tc - 77.9 * tc ** 2 + 1120 * tc ** 3 - 3430 * tc ** 4) * 4 * O["flap_chord_frac"] * k2 * (1.36 * k2 - 0.389 * k2 ** 2)
    flaps = sec * O["wing_area_flapped_frac"] * (1 - 0.08 * cs ** 2) * cs ** 0.75
    slats = 7.11 * O["slat_chord_frac"] * O["slat_span_frac"] ** 2 * cs ** 2
    env.eq("clean value plus flap and slat increments, multiplier applied once", o, O["fudge_factor"] * (c0 + flaps + slats))


def cylinder(env):
    L, d = env.pos("L", (1,), base=3.0), env.pos("D", (1,), base=2.0)
    env.eq("lateral area", env.comp(CylinderSurfaceArea).run({"L": L, "D": d})["A"], PI * d * L)


# --------------------------------------------------------------------------- build-ups
JT = [{}, dict(FF_nacelle=1.3, Q_fuselage=1.1, Q_tail=1.07, Q_wing=1.03, flap_chord_frac=0.3, Q_flap=1.4, wing_area_flapped_frac=0.7, drag_fudge_factor=1.15,
               fuselage_laminar_frac=0.05, hstab_laminar_frac=0.2, vstab_laminar_frac=0.1, wing_laminar_frac=0.3, nacelle_laminar_frac=0.07),
      dict(hstab_laminar_frac=0.0, vstab_laminar_frac=0.0, wing_laminar_frac=0.0, drag_fudge_factor=0.9)]
JTDEF = dict(FF_nacelle=1.25 * 1.2, Q_fuselage=1.0, Q_tail=1.05, Q_wing=1.0, flap_chord_frac=0.2, Q_flap=1.25, wing_area_flapped_frac=0.9, drag_fudge_factor=1.0,
             fuselage_laminar_frac=0.0, hstab_laminar_frac=0.15, vstab_laminar_frac=0.15, wing_laminar_frac=0.15, nacelle_laminar_frac=0.0)
BW = [{}, dict(FF_nacelle=1.3, flap_chord_frac=0.3, Q_flap=1.4, wing_area_flapped_frac=0.7, drag_fudge_factor=1.15, nacelle_laminar_frac=0.07)]
BWDEF = dict(FF_nacelle=1.25 * 1.2, flap_chord_frac=0.2, Q_flap=1.25, wing_area_flapped_frac=0.0, drag_fudge_factor=1.0, nacelle_laminar_frac=0.0)
RANGE = {"*iv.*": "const", "*toverc": (0, 0.3), "*c4sweep": (-1.2, 1.2), "*taper": (0.05, 1), "*flap_extension": (0, 60), "*flap_deg": (0, 60), "*num_engines": (1, 6), "*Utrue": (50, 400), "*rho": (0.1, 2), "*|T": (150, 400),
         "*length": (1, 100), "*S_ref": (5, 1e3), "*AR": (1, 20), "*S_wet": (1, 1e3), "*height": (0.5, 20), "*": (0.1, 100)}


def lam(x):
    return x if x > 0 else None


def scal(g, n, u=None):
    return flat(g.val(n, u))[0]


def flow(env, g, nn):
    return {k: flat(g.val("fltcond|" + k, u)) for k, u in (("Utrue", "m/s"), ("rho", "kg/m**3"), ("T", "K"))}


def nacelle(env, g, f, O):
    re = reynolds(env, f["Utrue"], f["rho"], f["T"], scal(g, "ac|geom|nacelle|length", "m"))
    return scal(g, "ac|geom|nacelle|S_wet", "m**2") * O["FF_nacelle"] * cf(env, re, lam(O["nacelle_laminar_frac"])) * scal(g, "ac|propulsion|num_engines")


def high_lift(env, g, O, gear):
    return flap_cd(env, scal(g, "ac|aero|takeoff_flap_deg", "deg"), scal(g, "ac|geom|wing|c4sweep", "rad"), O["flap_chord_frac"], O["wing_area_flapped_frac"], O["Q_flap"]) + gear


def surface(env, g, f, s, Q, lf):
    S, AR, t, tc = scal(g, "ac|geom|%s|S_ref" % s, "m**2"), scal(g, "ac|geom|%s|AR" % s), scal(g, "ac|geom|%s|taper" % s), scal(g, "ac|geom|%s|toverc" % s)
    cr = (S / AR) ** 0.5 * 2 / (1 + t)
    mac = cr * 2 * (1 + t + t ** 2) / (3 * (1 + t))
    return 2 * S * Q * (1 + 2.7 * tc + 100 * tc ** 4) * cf(env, reynolds(env, f["Utrue"], f["rho"], f["T"], mac), lam(lf))


def jt(nn, conf, wing, iopt):
    O = dict(JTDEF, **JT[iopt])

    def fn(env):
        g = env.group(lambda: D.ParasiteDragCoefficient_JetTransport(num_nodes=nn, configuration=conf, include_wing=wing, **JT[iopt]), key=("jt", nn, conf, wing, iopt), spec=RANGE)
        f, S = flow(env, g, nn), scal(g, "ac|geom|wing|S_ref", "m**2")
        L, h = scal(g, "ac|geom|fuselage|length", "m"), scal(g, "ac|geom|fuselage|height", "m")
        fus = scal(g, "ac|geom|fuselage|S_wet", "m**2") * O["Q_fuselage"] * (1 + 2.2 * h / L + 3.8 * (h / L) ** 3) * cf(env, reynolds(env, f["Utrue"], f["rho"], f["T"], L), lam(O["fuselage_laminar_frac"]))
        tails = surface(env, g, f, "hstab", O["Q_tail"], O["hstab_laminar_frac"]) + surface(env, g, f, "vstab", O["Q_tail"], O["vstab_laminar_frac"])
        tot = fus + tails + nacelle(env, g, f, O)
        if wing:
            tot = tot + surface(env, g, f, "wing", O["Q_wing"], O["wing_laminar_frac"])
        extra = high_lift(env, g, O, 0.02) if conf == "takeoff" else 0
        env.eq("zero-lift drag is the sum of its items, multiplier applied once", flat(g.val("CD0")), O["drag_fudge_factor"] * (tot / S + extra))
    return fn


def jt_delta(nn, iopt):
    """clean and takeoff build-ups on the same aircraft and condition"""
    O = dict(JTDEF, **JT[iopt])

    def fn(env):
        mkg = lambda conf: env.group(lambda: D.ParasiteDragCoefficient_JetTransport(num_nodes=nn, configuration=conf, **JT[iopt]), key=("jtd", nn, conf, iopt), spec=RANGE)
        c = np.array(flat(mkg("clean").val("CD0")))
        g = mkg("takeoff")
        env.eq("configurations differ by flaps and gear only", flat(g.val("CD0")) - c, O["drag_fudge_factor"] * high_lift(env, g, O, 0.02) + 0 * c)
        env.gt("gear and flaps add drag", flat(g.val("CD0")), c)
    return fn


def bwb(nn, conf, iopt):
    O = dict(BWDEF, **BW[iopt])

    def fn(env):
        g = env.group(lambda: B.ParasiteDragCoefficient_BWB(num_nodes=nn, configuration=conf, **BW[iopt]), key=("bwb", nn, conf, iopt), spec=RANGE)
        f, S = flow(env, g, nn), scal(g, "ac|geom|wing|S_ref", "m**2")
        extra = high_lift(env, g, O, 0.01) if conf == "takeoff" else 0
        env.eq("zero-lift drag is the sum of its items, multiplier applied once", flat(g.val("CD0")), O["drag_fudge_factor"] * (nacelle(env, g, f, O) / S + extra))
    return fn


# --------------------------------------------------------------------------- wave drag of a region of the wing
def wave(nn, n, i0, i1, uniform, norm):
    def fn(env):
        from openconcept.aerodynamics.openaerostruct import WaveDragFromSections as W
        ka = env.inp("ka", (), 0.5, 1.2, base=0.95)
        M, cl = env.inp("M", (nn,), 0.05, 1, base=0.95), env.inp("CL", (nn,), 0, 1, base=0.3)
        wd = env.inp("w", (n - 1,), 0.1, 50, base=9.0)
        y = np.array([-total(flat(wd)[i:]) for i in range(n - 1)], dtype=float if env.real else object)
        one = 0 * env.inp("one", (n,), 0, 1, base=0.5) + 1
        c = env.inp("c", (n,), 0.1, 50, base=5.0) if uniform == "toverc" else one * flat(env.inp("c", (1,), 0.1, 50, base=5.0))[0]
        tc = env.inp("tc", (n,), 0, 0.3, base=0.12) if uniform == "chord" else one * flat(env.inp("tc", (1,), 0, 0.3, base=0.12))[0]
        s = env.inp("s", (1,), 0, 60, base=25.0)
        d = {"fltcond|M": M, "fltcond|CL": cl, "toverc_sec": tc, "y_sec": y, "chord_sec": c, "c4sweep": s}
        O = dict(num_nodes=nn, num_sections=n, idx_sec_start=i0, idx_sec_end=i1)
        o = np.array(flat(env.comp(W, symopts={"airfoil_tech_level": ka}, **O).run(d)["CD_wave"]))
        hi = n - 1 if i1 is None else i1
        ix = range(i0, hi)
        ar = [0.5 * (flat(c)[i] + flat(c)[i + 1]) * flat(wd)[i] for i in ix]
        half = total(ar)
        mean = total([0.5 * (flat(tc)[i] + flat(tc)[i + 1]) * a for i, a in zip(ix, ar)]) / half
        cs = env.math("cos", flat(s)[0] * (PI / 180))
        for i in range(nn):
            # Korn: drag divergence; Lock: 20 (M - Mcrit)^4, doubled for the mirrored half as OpenAeroStruct does
            mcr = ka / cs - mean / cs ** 2 - flat(cl)[i] / (10 * cs ** 3) - (0.1 / 80.0) ** (1 / 3)
            if flat(M)[i] > mcr:
                env.eq("wave drag above the critical Mach number", o[i], 40 * (flat(M)[i] - mcr) ** 4)
            else:
                env.eq("no wave drag below the critical Mach number", o[i], 0)
        if norm:
            S = env.inp("S", (1,), 1, 1e4, base=300.0)
            on = flat(env.comp(W, key="norm", symopts={"airfoil_tech_level": ka}, specify_area_norm=True, **O).run(dict(d, S_ref=S))["CD_wave"])
            env.eq("same drag force whatever area it is normalised by", on * S, o * (2 * half))
    return fn


def harnesses(tier):
    deep = tier != "quick"
    nns = pick(tier, (1, 2), (1, 2, 3, 11), (1, 2, 3, 5, 11))
    out = []
    for nn in nns:
        out += [Semantic("PolarDrag/vec_CD0=%s/nn=%d" % (v, nn), polar(nn, v)) for v in (False, True)]
        out += [Semantic("Lift/nn=%d" % nn, lift(nn))]
        out += [Semantic("SkinFriction/laminar=%s/nn=%d" % (l, nn), friction(nn, l)) for l in (False, True)]
    out += [Semantic("StallSpeed", stall), Semantic("StallSpeed+Lift", stall_lift), Semantic("FuselageFormFactor", fus_ff), Semantic("WingFormFactor", wing_ff),
            Semantic("CleanCLmax", clean_cl), Semantic("FlapCLmax", flap_cl), Semantic("CylinderSurfaceArea", cylinder)]
    out += [Semantic("FlapDrag/chord fraction %g" % c, flap_drag(c)) for c in (0.0, 0.2, 0.35)]
    for nn in nns[:2]:
        for io in range(len(JT)):
            for conf in ("clean", "takeoff"):
                for wing in (True, False):
                    if nn == 1 or deep or (io == 1):
                        out.append(Semantic("ParasiteDrag_JetTransport/%s/wing=%s/options %d/nn=%d" % (conf, wing, io, nn), jt(nn, conf, wing, io)))
        for io in range(len(BW)):
            for conf in ("clean", "takeoff"):
                out.append(Semantic("ParasiteDrag_BWB/%s/options %d/nn=%d" % (conf, io, nn), bwb(nn, conf, io)))
        out += [Semantic("JetTransport clean vs takeoff/options %d/nn=%d" % (io, nn), jt_delta(nn, io)) for io in (0, 1)]
    regions = [(2, 0, None), (3, 0, None), (3, 1, None), (3, 0, 1), (4, 1, 2)] + ([(4, 0, None), (4, 1, 3), (4, 0, 2), (4, 2, None)] if deep else [])
    for n, a, b in regions:
        for u in ("toverc", "chord"):
            out.append(Semantic("WaveDragFromSections/%d sections/%d-%s/uniform %s/nn=1" % (n, a, b, u), wave(1, n, a, b, u, n == 2 or deep)))
    out.append(Semantic("WaveDragFromSections/3 sections/0-1/uniform toverc/nn=2", wave(2, 3, 0, 1, "toverc", False)))
    return out
