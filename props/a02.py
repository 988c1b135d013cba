import numpy as np
import openmdao.api as om
from openconcept.atmospherics import (DynamicPressureComp, TrueAirspeedComp, EquivalentAirspeedComp, MachNumberComp, SpeedOfSoundComp)
from sx.core import Semantic
from .a01 import atm, RGAS
from .lib import pick

TITLE = "Airspeeds, Mach number and dynamic pressure are mutually consistent"
RHO0 = 1.225
BOUNDS = ["altitude -1 km to 40 km, temperature offset -60..60 K, any airspeed; 1, 2, 3 and 11 nodes (thorough also 4; at 11 the first combinations of branches)"]


def whole(nn, tas):
    def fn(env):
        g = env.group(atm(nn, tas), key=("atm", nn, tas), spec={"fltcond|h": (-1000, 40000), "fltcond|TempIncrement": (-60, 60)})
        q, rho = g.val("fltcond|q", "Pa"), g.val("fltcond|rho", "kg/m**3")
        ut, ue = g.val("fltcond|Utrue", "m/s"), g.val("fltcond|Ueas", "m/s")
        env.eq("q from true airspeed", q, rho * ut ** 2 / 2)
        env.eq("q from equivalent airspeed", q, RHO0 * ue ** 2 / 2)
        env.eq("Mach times speed of sound", g.val("fltcond|M") * g.val("fltcond|a", "m/s"), ut)
        env.eq("Mach from the gas", g.val("fltcond|M") ** 2 * 1.4 * RGAS * g.val("fltcond|T", "K"), ut ** 2)
    return fn


def roundtrip(nn):
    def fn(env):
        t = env.comp(TrueAirspeedComp, num_nodes=nn)
        e = env.comp(EquivalentAirspeedComp, num_nodes=nn)
        rho = env.pos("rho", nn, base=0.7)
        U = env.inp("U", nn, base=100.0)
        tas = np.array(t.run({"fltcond|rho": rho, "fltcond|Ueas": U})["fltcond|Utrue"])
        env.eq("equivalent -> true -> equivalent", e.run({"fltcond|rho": rho, "fltcond|Utrue": tas})["fltcond|Ueas"], U)
        eas = np.array(e.run({"fltcond|rho": rho, "fltcond|Utrue": U})["fltcond|Ueas"])
        env.eq("true -> equivalent -> true", t.run({"fltcond|rho": rho, "fltcond|Ueas": eas})["fltcond|Utrue"], U)
        q = env.comp(DynamicPressureComp, num_nodes=nn)
        env.eq("same dynamic pressure", q.run({"fltcond|rho": rho, "fltcond|Utrue": U})["fltcond|q"], RHO0 * eas ** 2 / 2)
    return fn


def mach(nn):
    def fn(env):
        a = env.comp(SpeedOfSoundComp, num_nodes=nn)
        m = env.comp(MachNumberComp, num_nodes=nn)
        T = env.pos("T", nn, base=250.0)
        U = env.inp("U", nn, base=100.0)
        c = np.array(a.run({"fltcond|T": T})["fltcond|a"])
        M = m.run({"fltcond|a": c, "fltcond|Utrue": U})["fltcond|M"]
        env.eq("M a = U", M * c, U)
        env.gt("speed of sound positive", c, 0 * T)
    return fn


def harnesses(tier):
    out = []
    for nn in pick(tier, (1, 2), (1, 2, 3, 11), (1, 2, 3, 4, 11)):
        for tas in (False, True):
            out.append(Semantic("group/nn%d/%s" % (nn, "tas" if tas else "eas"), whole(nn, tas), max_paths=200 if nn < 5 else 30))
        out.append(Semantic("roundtrip/nn%d" % nn, roundtrip(nn)))
        out.append(Semantic("mach/nn%d" % nn, mach(nn)))
    return out
