import numpy as np
import openmdao.api as om
from openconcept.thermal import ducts as D
from openconcept.thermal.heat_exchanger import HXGroup
from sx.core import Semantic, Continuity
from .lib import flat, pick

TITLE = "Ducted cooling flow satisfies the compressible-flow relations"
BOUNDS = ["1, 2 and 11 analysis points (thorough 3 and 4; the assembled ducts 1 and 2); every Mach number up to 3 (up to 1 inside the duct), all positive temperatures, pressures, areas "
          "and flows; specific-heat ratios 1.4, 1.3 and 5/3; both duct groups with every equation of the converged duct"]
R = 287.05


def cp(x):
    return {k: np.array(v) for k, v in x.items()}


def isentropic(nn, gam):
    def fn(env):
        M, Tt, pt = env.inp("M", (nn,), 0, 3, base=0.5), env.pos("Tt", (nn,), base=300.0), env.pos("pt", (nn,), base=9e4)
        o = {"num_nodes": nn, "gamma": gam}
        T = np.array(env.comp(D.TemperatureIsentropic, **o).run({"Tt": Tt, "M": M})["T"])
        p = np.array(env.comp(D.PressureIsentropic, **o).run({"pt": pt, "M": M})["p"])
        s = 1 + (gam - 1) / 2 * M ** 2
        env.eq("stagnation temperature ratio", T * s, Tt)
        for i in range(nn):
            env.eq("isentropic pressure-temperature relation", (gam - 1) * env.math("log", flat(p)[i] / flat(pt)[i]), gam * env.math("log", flat(T)[i] / flat(Tt)[i]))
        env.eq("temperature and back", env.comp(D.TotalTemperatureIsentropic, **o).run({"T": T, "M": M})["Tt"], Tt)
        env.eq("pressure and back", env.comp(D.TotalPressureIsentropic, **o).run({"p": p, "M": M})["pt"], pt)
        env.le("static temperature not above total", T, Tt)
        env.gt("static temperature positive", T, 0)
        env.gt("static pressure positive", p, 0)
        # rest: static equals total
        z = 0 * M
        env.eq("at rest static is total (temperature)", env.comp(D.TemperatureIsentropic, **o).run({"Tt": Tt, "M": z})["T"], Tt)
        env.eq("at rest static is total (pressure)", env.comp(D.PressureIsentropic, **o).run({"pt": pt, "M": z})["p"], pt)
    return fn


def gas(nn):
    def fn(env):
        Rg, gam = env.inp("R", (), 10, 1e4, base=287.0), env.inp("gam", (), 1.01, 2, base=1.4)
        p, T, A, M, U = (env.pos(n, (nn,), base=b) for n, b in (("p", 9e4), ("T", 300.0), ("A", 0.1), ("M", 0.4), ("U", 100.0)))
        rho = np.array(env.comp(D.DensityIdealGas, num_nodes=nn, symopts={"R": Rg}).run({"p": p, "T": T})["rho"])
        env.eq("ideal gas", rho * Rg * T, p)
        a = np.array(env.comp(D.SpeedOfSound, num_nodes=nn, symopts={"R": Rg, "gamma": gam}).run({"T": T})["a"])
        env.eq("speed of sound", a ** 2, gam * Rg * T)
        env.gt("speed of sound positive", a, 0)
        env.eq("Mach number", env.comp(D.MachNumberfromSpeed, num_nodes=nn).run({"a": a, "Utrue": U})["M"] * a, U)
        m = np.array(env.comp(D.MassFlow, num_nodes=nn).run({"a": a, "area": A, "rho": rho, "M": M})["mdot"])
        env.eq("mass flow is density times speed times area", m, rho * M * a * A)
        md = env.pos("md", (nn,), base=1.0)
        r = np.array(env.comp(D.MachNumberDuct, num_nodes=nn).run({"mdot": md, "a": a, "area": A[:1], "rho": rho}, {"M": M})["M"])
        env.eq("duct Mach equation", r ** 2, (md - rho * M * a * A[:1]) ** 2)
        f = np.array(env.comp(D.FlowMatcher, num_nodes=nn).run({"mdot_actual": m}, {"mdot": md})["mdot"])
        env.eq("flow matching equation", f ** 2, (m - md) ** 2)
    return fn


def station(nn):
    def fn(env):
        d = {k: env.inp(k, (nn,), lo, None, base=b) for k, lo, b in (("Tt_in", 0, 300.0), ("pt_in", 0, 9e4), ("mdot", 0, 1.0), ("rho", 0, 1.1), ("delta_p", None, -200.0),
                                                                     ("pressure_recovery", 0, 0.98), ("heat_in", None, 5e3))}
        d.update({k: env.pos(k, (1,), base=b) for k, b in (("area", 0.1), ("dynamic_pressure_loss_factor", 0.2), ("cp", 1003.0))})
        for k, hi in (("pt_in", 1e6), ("pressure_recovery", 2), ("delta_p", 1e5)):
            for i in range(nn):
                env.assume(d[k][i], "<", hi)
        o = cp(env.comp(D.HeatAdditionPressureLoss, num_nodes=nn).run(d))
        env.eq("heat addition raises total temperature", d["mdot"] * d["cp"] * (o["Tt_out"] - d["Tt_in"]), d["heat_in"])
        q = d["mdot"] ** 2 / (2 * d["rho"] * d["area"] ** 2)
        env.eq("total pressure", o["pt_out"] + q * d["dynamic_pressure_loss_factor"], d["pt_in"] * d["pressure_recovery"] + d["delta_p"])
        A = env.pos("An", (nn,), base=0.05)
        k = env.comp(D.NozzlePressureLoss, num_nodes=nn).run({"pt_in": d["pt_in"], "mdot": d["mdot"], "rho": d["rho"], "area": A,
                                                             "dynamic_pressure_loss_factor": d["dynamic_pressure_loss_factor"]})["pt"]
        env.eq("nozzle loss", (d["pt_in"] - k) * 2 * d["rho"] * A ** 2, d["dynamic_pressure_loss_factor"] * d["mdot"] ** 2)
    return fn


def force(nn):
    def fn(env):
        c = env.inp("cfg", (), 0, 1, base=0.98)
        d = {k: env.pos(k, (nn,), base=b) for k, b in (("mdot", 1.0), ("Utrue_inf", 100.0), ("p_inf", 9e4), ("area_nozzle", 0.04), ("p_nozzle", 9.5e4), ("rho_nozzle", 1.1))}
        F = env.comp(D.NetForce, num_nodes=nn, symopts={"cfg": c}).run(d)["F_net"]
        V = d["mdot"] / (d["rho_nozzle"] * d["area_nozzle"])
        env.eq("net force is gross thrust less ram drag", F, c * (d["mdot"] * V + d["area_nozzle"] * (d["p_nozzle"] - d["p_inf"])) - d["mdot"] * d["Utrue_inf"])
    return fn


def incompressible(nn):
    def fn(env):
        so = {"static_pressure_loss_factor": env.inp("k", (), 0, 5, base=0.15), "gross_thrust_factor": env.inp("cfg", (), 0, 1, base=0.98)}
        U, r, A, dp = env.pos("U", (nn,), base=80.0), env.pos("r", (nn,), base=1.1), env.pos("A", (nn,), base=0.05), env.inp("dp", (nn,), None, 0, base=-300.0)
        for i in range(nn):
            env.assume(r[i] * U[i] ** 2 + 2 * dp[i], ">", 0.0)
        o = cp(env.comp(D.ExplicitIncompressibleDuct, num_nodes=nn, symopts=so).run({"fltcond|Utrue": U, "fltcond|rho": r, "area_nozzle": A, "delta_p_hex": dp}))
        V = o["mdot"] / (r * A)
        env.eq("Bernoulli with losses", r * V ** 2 * (1 + so["static_pressure_loss_factor"]), r * U ** 2 + 2 * dp)
        env.gt("flows", o["mdot"], 0)
        env.eq("drag is lost momentum", o["drag"], o["mdot"] * (U - so["gross_thrust_factor"] * V))
    return fn


def exitmach(gam, choked):
    crit = (2 / (gam + 1)) ** (gam / (gam - 1))

    def fn(env):
        n = env.inp("npr", (1,), 0.02, crit * (1 - 1e-6), base=crit / 2) if choked else env.inp("npr", (1,), crit * (1 + 1e-6), 0.999999, base=0.9)
        M = np.array(env.comp(D.DuctExitMachNumber, num_nodes=1, gamma=gam).run({"nozzle_pressure_ratio": n})["M"])
        if choked:
            env.eq("choked: Mach one", M, 1 + 0 * M)
            return
        env.gt("moves", M, 0)
        pt = env.pos("pt", (1,), base=9e4)
        p = env.comp(D.PressureIsentropic, num_nodes=1, gamma=gam).run({"pt": pt, "M": M})["p"]
        env.eq("not choked: leaves at the exit pressure", p, n * pt)
    return fn


def exitcont(env):
    n = env.inp("npr", (1,), 0.1, 0.999)
    return {"M": env.comp(D.DuctExitMachNumber, num_nodes=1).run({"nozzle_pressure_ratio": n})["M"]}


SPEC = {"*eta_ram*": (0.5, 1), "*M": (1e-3, 1), "*pressure_ratio": (0.02, 0.999), "*p_inf": (1e4, 1.2e5), "inlet.p": (1e4, 1.2e5), "*T_inf": (180, 330), "*Utrue": (1, 300),
        "*recovery*": (0.5, 1), "*loss_factor*": (0, 2), "*heat*": (0, 1e5), "*freestreamtotalpressure.pt": (1e4, 1e6), "*delta_p*": (-1e4, 1e4), "*convergence_hack": (-100, 100),
        "*cp*": (900, 1100), "*area*": (1e-3, 1), "mdot": (0.005, 15), "*": (1e-3, 1e6)}


def inlet(nn, default=False):
    def fn(env):
        g = env.group(lambda: D.Inlet(num_nodes=nn), key=("inlet", nn, default), spec=dict({"*eta_ram*": "const"}, **{k: d for k, d in SPEC.items() if k != "*eta_ram*"}) if default else SPEC)
        v = lambda n, u=None: flat(g.val(n, u))
        M = v("M")
        env.eq("flight Mach number", M ** 2 * 1.4 * R * v("T", "K"), v("Utrue", "m/s") ** 2)
        env.eq("ram total temperature", v("Tt", "K"), v("T", "K") * (1 + 0.2 * M ** 2))
        env.eq("ram total pressure", v("pt", "Pa") ** 2, (flat(g.inval("totalpressure.eta_ram")) * v("p", "Pa")) ** 2 * (1 + 0.2 * M ** 2) ** 7)
        if default:
            env.eq("no ram loss unless one is stated", v("pt", "Pa") ** 2, v("p", "Pa") ** 2 * (1 + 0.2 * M ** 2) ** 7)
    return fn


def duct(cls, nn, cfg):
    ext = cls is D.ImplicitCompressibleDuct_ExternalHX

    def fn(env):
        def build():
            g = om.Group()
            g.add_subsystem("duct", cls(num_nodes=nn, cfg=cfg), promotes=["*"])
            return g
        keep = lambda p, c: ".hx." in p or isinstance(c, (D.DuctExitMachNumber,)) or p.endswith("freestreamtotalpressure")
        g = env.group(build, key=("duct", ext, nn, cfg), spec=SPEC, opaque=keep)
        v = lambda n, u=None: flat(g.val("duct." + n, u) if g.has("duct." + n) else g.val(n, u))
        i = lambda n, u=None: flat(g.inval("duct." + n, u))
        md = v("mdot", "kg/s")
        T0, p0, U = i("inlet.T", "K"), i("inlet.p", "Pa"), i("inlet.Utrue", "m/s")
        M0 = v("inlet.mach.M")
        env.eq("flight Mach number", M0 ** 2 * 1.4 * R * T0, U ** 2)
        env.eq("ram total temperature", v("inlet.freestreamtotaltemperature.Tt", "K"), T0 * (1 + 0.2 * M0 ** 2))
        env.eq("inlet recovery", v("inlet.totalpressure.pt", "Pa"), v("inlet.freestreamtotalpressure.pt", "Pa") * i("inlet.totalpressure.eta_ram"))
        for s in ("sta1", "sta2", "sta3"):
            M, T, p = v(s + ".mach.M"), v(s + ".temp.T", "K"), v(s + ".pressure.p", "Pa")
            env.eq("%s total temperature" % s, T * (1 + 0.2 * M ** 2), v(s + ".totals.Tt_out", "K"))
            env.eq("%s total pressure" % s, p ** 2 * (1 + 0.2 * M ** 2) ** 7, v(s + ".totals.pt_out", "Pa") ** 2)
            env.eq("%s gas law" % s, v(s + ".density.rho", "kg/m**3") * R * T, p)
            env.eq("%s carries the duct mass flow" % s, flat(g.residual("duct." + s + ".mach.M" if g.has("duct." + s + ".mach.M") else s + ".M")) ** 2,
                   (md - M * v(s + ".speedsound.a", "m/s") * i(s + ".mach.area", "m**2") * v(s + ".density.rho", "kg/m**3")) ** 2)
            env.eq("%s speed of sound" % s, v(s + ".speedsound.a", "m/s") ** 2, 1.4 * R * T)
            env.eq("%s heat addition" % s, (v(s + ".totals.Tt_out", "K") - i(s + ".totals.Tt_in", "K")) * md * v("cp", "J/kg/K"), i(s + ".totals.heat_in", "W"))
            env.eq("%s flow in the pressure loss" % s, i(s + ".totals.mdot", "kg/s"), md)
            env.eq("%s area in the pressure loss" % s, i(s + ".totals.area", "m**2"), i(s + ".mach.area", "m**2"))
        # what the duct offers for each station acts on that station
        for n, s, k, u in (("area_1", "sta1", "mach.area", "m**2"), ("delta_p_1", "sta1", "totals.delta_p", "Pa"), ("delta_p_2", "sta2", "totals.delta_p", "Pa"),
                           ("heat_in_1", "sta1", "totals.heat_in", "W"), ("heat_in_2", "sta2", "totals.heat_in", "W"),
                           ("pressure_recovery_1", "sta1", "totals.pressure_recovery", None), ("pressure_recovery_2", "sta2", "totals.pressure_recovery", None),
                           ("pressure_recovery_3", "sta3", "totals.pressure_recovery", None), ("loss_factor_1", "sta1", "totals.dynamic_pressure_loss_factor", None)):
            env.eq("%s acts on %s" % (n, s), i(s + "." + k, u), v(n, u))
        for s in ("sta1", "sta2", "sta3"):
            env.eq("%s specific heat" % s, i(s + ".totals.cp", "J/kg/K"), v("cp", "J/kg/K"))
            q = md ** 2 / (2 * i(s + ".totals.rho", "kg/m**3") * i(s + ".totals.area", "m**2") ** 2)
            env.eq("%s total pressure changes by recovery, loss and jump only" % s, v(s + ".totals.pt_out", "Pa") + q * i(s + ".totals.dynamic_pressure_loss_factor"),
                   i(s + ".totals.pt_in", "Pa") * i(s + ".totals.pressure_recovery") + i(s + ".totals.delta_p", "Pa"))
        env.eq("stations 1-2 share total temperature", i("sta2.totals.Tt_in", "K"), v("sta1.totals.Tt_out", "K"))
        env.eq("stations 2-3 share total temperature", i("sta3.totals.Tt_in", "K"), v("sta2.totals.Tt_out", "K"))
        env.eq("inlet to station 1 temperature", i("sta1.totals.Tt_in", "K"), v("inlet.freestreamtotaltemperature.Tt", "K"))
        env.eq("inlet to station 1 pressure", i("sta1.totals.pt_in", "Pa"), v("inlet.totalpressure.pt", "Pa"))
        env.eq("stations 1-2 share total pressure", i("sta2.totals.pt_in", "Pa"), v("sta1.totals.pt_out", "Pa"))
        env.eq("stations 2-3 share total pressure", i("sta3.totals.pt_in", "Pa"), v("sta2.totals.pt_out", "Pa"))
        env.eq("station 3 to nozzle pressure", i("nozzle.pressureloss.pt_in", "Pa"), v("sta3.totals.pt_out", "Pa"))
        env.eq("station 3 to nozzle temperature", i("nozzle.temp.Tt", "K"), v("sta3.totals.Tt_out", "K"))
        if not ext:
            env.eq("exchanger heat enters the air", i("sta3.totals.heat_in", "W"), v("hx.heat.heat_transfer", "W"))
            env.eq("exchanger pressure drop acts on the air", i("sta3.totals.delta_p", "Pa"), v("hx.delta_p.delta_p_cold", "Pa"))
            for s in ("sta2", "sta3"):
                env.eq("%s has the exchanger's frontal area" % s, i(s + ".mach.area", "m**2"), v("hx.osfgeometry.frontal_area", "m**2"))
            env.eq("exchanger sees the air flow", i("hx.ntu.mdot_cold", "kg/s"), md)
            env.eq("exchanger sees the air temperature", i("hx.ntu.T_in_cold", "K"), v("sta2.temp.T", "K"))
            env.eq("exchanger sees the air density", i("hx.delta_p.rho_cold", "kg/m**3"), v("sta2.density.rho", "kg/m**3"))
        Mn, pn, rn, A = v("nozzle.machimplicit.M"), v("nozzle.pressure.p", "Pa"), v("nozzle.density.rho", "kg/m**3"), i("force.area_nozzle", "m**2")
        env.eq("one nozzle area", i("nozzle.massflow.area", "m**2"), A)
        env.eq("one nozzle area (loss)", i("nozzle.pressureloss.area", "m**2"), A)
        env.eq("nozzle pressure ratio equation", flat(g.residual(g_name(g, "nozzle.nozzle_pressure_ratio"))) ** 2,
               (v("nozzle.nozzle_pressure_ratio") - v("p_exit", "Pa") / v("nozzle.pressureloss.pt", "Pa")) ** 2)
        env.eq("Mach number follows the pressure ratio", i("nozzle.machimplicit.nozzle_pressure_ratio"), v("nozzle.nozzle_pressure_ratio"))
        env.eq("exit pressure is ambient plus the stated offset", v("p_exit", "Pa"), p0 + v("convergence_hack", "Pa"))
        env.eq("nozzle total pressure", pn ** 2 * (1 + 0.2 * Mn ** 2) ** 7, v("nozzle.pressureloss.pt", "Pa") ** 2)
        env.eq("nozzle total temperature", v("nozzle.temp.T", "K") * (1 + 0.2 * Mn ** 2), v("sta3.totals.Tt_out", "K"))
        env.eq("nozzle gas law", rn * R * v("nozzle.temp.T", "K"), pn)
        env.eq("nozzle flow", v("nozzle.massflow.mdot", "kg/s") if g.has("duct.nozzle.massflow.mdot") else v("mdot_actual", "kg/s"), rn * A * Mn * v("nozzle.speedsound.a", "m/s"))
        env.eq("flow matching", flat(g.residual("mdot")) ** 2, (v("mdot_actual", "kg/s") - md) ** 2)
        V = md / (rn * A)
        env.eq("net force", v("force.F_net", "N"), cfg * (md * V + A * (pn - p0)) - md * U)
    return fn


def g_name(g, n):
    return "duct." + n if g.has("duct." + n) else n


def harnesses(tier):
    t = tier != "quick"
    out = [Continuity("exit Mach continuous at choking", exitcont)]
    for gam in (1.4, 1.3) + ((5 / 3.0,) if t else ()):
        for ch in (True, False):
            out.append(Semantic("exit/%s/gamma %.2f" % ("choked" if ch else "open", gam), exitmach(gam, ch)))
    for nn in (1, 2, 11) + pick(tier, (), (3,), (3, 4)):
        n = "/nn%d" % nn
        for gam in (1.4, 1.3) + ((5 / 3.0,) if t else ()):
            out.append(Semantic("isentropic/gamma %.2f%s" % (gam, n), isentropic(nn, gam)))
        out.append(Semantic("inlet, no stated loss" + n, inlet(nn, True)))
        for nme, f in (("gas", gas), ("station", station), ("force", force), ("incompressible", incompressible), ("inlet", inlet)):
            out.append(Semantic(nme + n, f(nn)))
        for cls in (D.ImplicitCompressibleDuct, D.ImplicitCompressibleDuct_ExternalHX) if nn < 5 else ():
            for cfg in (0.98, 0.9):
                out.append(Semantic("%s/cfg %.2f%s" % (cls.__name__, cfg, n), duct(cls, nn, cfg), budget=200))
    return out
