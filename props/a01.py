import numpy as np
from sx import omx
from openconcept.atmospherics.compute_atmos_props import ComputeAtmosphericProperties
from openconcept.atmospherics.temperature_comp import TemperatureComp
from openconcept.atmospherics.pressure_comp import PressureComp
from openconcept.atmospherics.density_comp import DensityComp
from sx.core import Semantic, Continuity
from .lib import pick

TITLE = "Atmosphere model is continuous, positive and obeys the gas law"
EXPLANATION = ("Every branch of the real temperature and pressure components is executed on a symbolic altitude; the branch "
               "formulas are compared on the surface where the branches part, positivity and monotonicity are decided inside each "
               "layer, and the gas law is decided over the whole assembled atmosphere group.")
BOUNDS = ["altitude -1 km to 40 km (monotonicity and positivity), 1, 2, 3 and 11 nodes (at 11 the first combinations of layers)"]
TOP = 40000.0
RGAS = 287.058


def atm(nn, tas):
    return lambda: ComputeAtmosphericProperties(num_nodes=nn, true_airspeed_in=tas)


def cont(cls, out):
    def fn(env):
        h = env.comp(cls, num_nodes=1)
        ins = {"fltcond|h": env.inp("h", 1, -1000.0, TOP)}
        if cls is TemperatureComp:
            ins["fltcond|TempIncrement"] = env.inp("dT", 1, -60, 60)
        return {out: h.run(ins)[out]}
    return fn


def smooth(cls, out):
    """the slope the component reports is the same on both sides of a layer boundary"""
    def fn(env):
        h = env.comp(cls, num_nodes=1)
        ins = {"fltcond|h": env.inp("h", 1, -1000.0, TOP)}
        if cls is TemperatureComp:
            ins["fltcond|TempIncrement"] = env.inp("dT", 1, -60, 60)
        v = np.array(h.run(ins)[out]).reshape(-1)
        m = h.m
        if env.real:
            with omx.quiet():
                m.prob.model.run_linearize()
            J = np.array(m.comp._subjacs_info[m.comp.pathname + "." + out, m.comp.pathname + ".fltcond|h"]["val"], dtype=float)
        else:
            J = m.partials()
            J.settle()
            J = np.array(J.dense((out, "fltcond|h")))
        return {"extrapolation of %s by one kilometre" % out: v + 1000.0 * J.reshape(-1)[:1]}
    return fn


def monotone(cls, out, lo, hi):
    def fn(env):
        h = env.comp(cls, num_nodes=2)
        h1 = env.inp("h1", (), lo, hi)
        h2 = env.inp("h2", (), lo, hi)
        env.assume(h1, "<", h2)
        ins = {"fltcond|h": np.array([h1, h2], dtype=float if env.real else object)}
        if cls is TemperatureComp:
            dT = env.inp("dT", (), -60, 60)
            ins["fltcond|TempIncrement"] = np.array([dT, dT], dtype=float if env.real else object)
        v = h.run(ins)[out]
        env.ge("%s does not increase with altitude" % out, v[0], v[1])
        env.gt("positive", v[0], 0)
        env.gt("positive top", v[1], 0)
    return fn


def gas(nn, tas):
    def fn(env):
        g = env.group(atm(nn, tas), key=("atm", nn, tas), spec={"fltcond|h": (-1000, 40000), "fltcond|TempIncrement": (-60, 60)})
        p, T, rho = g.val("fltcond|p", "Pa"), g.val("fltcond|T", "K"), g.val("fltcond|rho", "kg/m**3")
        env.eq("p = rho R T", p, rho * RGAS * T)
        env.gt("density positive", rho, 0)
        env.gt("pressure positive", p, 0)
        env.gt("temperature positive", T, 0)
        env.eq("speed of sound squared", g.val("fltcond|a", "m/s") ** 2, 1.4 * RGAS * T)
    return fn


def increment(nn):
    def fn(env):
        h = env.comp(TemperatureComp, num_nodes=nn)
        alt = env.inp("h", nn, -1000.0, TOP)
        d = env.inp("dT", nn, -60, 60)
        zero = 0 * d
        a = np.array(h.run({"fltcond|h": alt, "fltcond|TempIncrement": d})["fltcond|T"])
        b = np.array(h.run({"fltcond|h": alt, "fltcond|TempIncrement": zero})["fltcond|T"])
        env.eq("offset adds to the standard temperature", a, b + d)
    return fn


def standard(env):
    """anchor: 1976 standard atmosphere at sea level and the tropopause"""
    t = env.comp(TemperatureComp, num_nodes=2)
    p = env.comp(PressureComp, num_nodes=2)
    d = env.inp("dT", (), -60, 60)
    alt = np.array([0.0, 15000.0])
    T = t.run({"fltcond|h": alt, "fltcond|TempIncrement": np.array([d, d], dtype=float if env.real else object)})["fltcond|T"]
    P = p.run({"fltcond|h": alt})["fltcond|p"]
    for lab, v, w, tol in (("sea level temperature", T[0], 288.15 + d, 0.1), ("15 km temperature", T[1], 216.65 + d, 0.1),
                           ("sea level pressure", P[0], 101325.0, 200.0), ("15 km pressure", P[1], 12111.0, 60.0)):
        env.le(lab + " (upper)", v, w + tol)
        env.ge(lab + " (lower)", v, w - tol)


def harnesses(tier):
    out = [Continuity("continuous/T", cont(TemperatureComp, "fltcond|T")), Continuity("continuous/p", cont(PressureComp, "fltcond|p")),
           Continuity("smooth/T", smooth(TemperatureComp, "fltcond|T")), Continuity("smooth/p", smooth(PressureComp, "fltcond|p"))]
    for nm, lo, hi in (("troposphere", -1000.0, 10499.0), ("blend", 10501.0, 11499.0), ("stratosphere", 11501.0, TOP)):
        for cls, o in ((TemperatureComp, "fltcond|T"), (PressureComp, "fltcond|p")):
            out.append(Semantic("monotone/%s/%s" % (o.split("|")[1], nm), monotone(cls, o, lo, hi)))
    for nn in pick(tier, (1, 2), (1, 2, 3, 11), (1, 2, 3, 4, 11)):
        for tas in (False, True):
            out.append(Semantic("gas-law/nn%d/%s" % (nn, "tas" if tas else "eas"), gas(nn, tas), max_paths=200 if nn < 5 else 30))
        out.append(Semantic("temperature-offset/nn%d" % nn, increment(nn), max_paths=200 if nn < 5 else 30))
    out.append(Semantic("standard-values", standard))
    return out
