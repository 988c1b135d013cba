import numpy as np
import openmdao.api as om
from openconcept.mission import profiles as R, phases as P
from openconcept.utilities import Integrator, LinearInterpolator, AddSubtractComp, DVLabel
from sx.core import Semantic
from .lib import flat, pick
from . import vehicle as V
from .m01 import opq, Vehicle as Forces, SPEC as PSPEC, G

TITLE = "A converged mission flies the requested profile"
BOUNDS = ["every profile at 3, 5 and 7 nodes per phase (thorough 9; the basic mission 11); all vertical-speed and ground-speed histories, ranges and altitudes "
          "(climbing in the climbs, descending in the descents); the mission equations are solved exactly for the phase durations; throttle "
          "equation per phase type with arbitrary forces"]
KEEP = (Integrator, LinearInterpolator, AddSubtractComp, om.BalanceComp, om.ExecComp, DVLabel)


def keep(path, c):
    return not isinstance(c, KEEP) or ".acmodel" in path


UP, DOWN = (0.1, 30.0), (-30.0, -0.1)
SPEC = {"*groundspeed*": (1.0, 300.0), "climb.fltcond|vs": UP, "reserve_climb.fltcond|vs": UP, "descent.fltcond|vs": DOWN, "reserve_descent.fltcond|vs": DOWN,
        "*cruise.fltcond|vs": (-0.05, 0.05), "loiter.fltcond|vs": (-0.05, 0.05), "*duration": (0, None), "*range*": (0, None), "*|h0": (0, None),
        "takeoff|h": (0, None), "*": (None, None)}


def rise(x, nn):
    """Simpson mean of the samples"""
    w = [1] + [4 if i % 2 else 2 for i in range(1, nn - 1)] + [1]
    s = 0
    for a, b in zip(w, x):
        s = s + a * b
    return s / (3 * (nn - 1))


PROFILES = {
    "basic": (R.BasicMission, {}),
    "basic+groundroll": (R.BasicMission, {"include_ground_roll": True}),
    "reserve": (R.MissionWithReserve, {}),
    "full/simplified": (R.FullMissionAnalysis, {"transition_method": "simplified"}),
    "full/ode": (R.FullMissionAnalysis, {"transition_method": "ode"}),
    "full+reserve/simplified": (R.FullMissionWithReserve, {"transition_method": "simplified"}),
    "full+reserve/ode": (R.FullMissionWithReserve, {"transition_method": "ode"}),
}


def mission(name, nn):
    cls, opts = PROFILES[name]

    def fn(env):
        g = env.group(lambda: cls(num_nodes=nn, aircraft_model=V.Plain, **opts), key=("m03", name, nn), opaque=keep, spec=SPEC)
        res = "reserve" in name
        unk = ["climb", "descent", "cruise"] + (["reserve_climb", "reserve_descent", "reserve_cruise"] if res else [])
        g.close([(u + ".duration", u + ".duration") for u in unk])
        h = lambda ph: flat(g.val(ph + ".fltcond|h", "m"))
        r = lambda ph: flat(g.val(ph + ".range", "m"))
        h0 = flat(g.val("takeoff|h", "m"))[0]
        if name.startswith("full"):
            env.eq("climb starts where the takeoff ended", h("climb")[0], flat(g.val("rotate.fltcond|h_final", "m"))[0])
        else:
            env.eq("climb starts at the takeoff altitude", h("climb")[0], h0)
        env.eq("climb ends at the cruise altitude", h("climb")[-1], flat(g.val("cruise|h0", "m"))[0])
        env.eq("descent ends at the landing altitude", h("descent")[-1], h0)
        env.eq("range at the end of the descent is the requested range", r("descent")[-1], flat(g.val("mission_range", "m"))[0])
        if "groundroll" in name:
            env.eq("ground roll ends at the requested takeoff speed", flat(g.inval("groundroll.v1constraint.takeoff|v1", "m/s"))[0], flat(g.val("takeoff|v2", "m/s"))[0])
        phases = ["climb", "cruise", "descent"]
        if res:
            phases += ["reserve_climb", "reserve_cruise", "reserve_descent", "loiter"]
            env.eq("reserve climb ends at the reserve altitude", h("reserve_climb")[-1], flat(g.val("reserve|h0", "m"))[0])
            env.eq("reserve descent ends at the landing altitude", h("reserve_descent")[-1], h0)
            env.eq("reserve range is flown", r("reserve_descent")[-1] - r("descent")[-1], flat(g.val("reserve_range", "m"))[0])
            env.eq("loiter starts at the loiter altitude", h("loiter")[0], flat(g.val("loiter|h0", "m"))[0])
            env.eq("loiter lasts as requested", flat(g.val("loiter.duration", "s"))[0], flat(g.val("loiter_duration", "s"))[0])
        for ph in phases:
            T = flat(g.val(ph + ".duration", "s"))[0]
            vs, gs = flat(g.val(ph + ".fltcond|vs", "m/s")), flat(g.val(ph + ".fltcond|groundspeed", "m/s"))
            env.eq("%s follows the requested vertical speed" % ph, h(ph)[-1] - h(ph)[0], T * rise(vs, nn))
            env.eq("%s covers the ground at its groundspeed" % ph, r(ph)[-1] - r(ph)[0], T * rise(gs, nn))
    return fn


def throttle(fp, nn):
    """the throttle equation holds exactly when the forces along the path give the requested acceleration"""
    def fn(env):
        def build():
            ph = P.SteadyFlightPhase(num_nodes=nn, flight_phase=fp, aircraft_model=Forces)
            ph.add_subsystem("given_duration", om.IndepVarComp("duration", val=100.0, units="s"), promotes_outputs=["*"])
            return ph

        g = env.group(build, key=("thr", fp, nn), opaque=lambda p, c: opq(p, c) or isinstance(c, Integrator),
                      spec=dict(PSPEC, **{"fltcond|Ueas": (10, 300), "fltcond|vs": (-5, 5), "fltcond|rho": (0.9, 1.5), "zero_accel": (None, None)}))
        g.close([("throttle", "thrust")])
        U, vs, m = g.val("fltcond|Utrue", "m/s"), g.val("fltcond|vs", "m/s"), g.val("weight", "kg")
        T, D, a = g.val("thrust", "N"), g.val("drag", "N"), g.val("zero_accel", "m/s**2")
        env.eq("the wheels are up", g.val("braking"), 0 * a)
        for i in range(nn):
            env.assume(flat(U)[i] ** 2, ">", flat(vs)[i] ** 2)
        env.eq("thrust balances drag, the weight along the path and the requested acceleration", T * U, (D + m * a) * U + m * G * vs)
        env.eq("acceleration is the requested one", g.val("accel_horiz", "m/s**2"), a)
        env.eq("vehicle gets the throttle", g.inval("acmodel.forces.throttle"), g.val("throttle"))
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    for nn in (3,) + pick(tier, (), (5, 7, 11), (5, 7, 9, 11)):
        for name in PROFILES if nn < 10 else [x for x in PROFILES if x.startswith("basic")]:
            out.append(Semantic("%s/nn%d" % (name, nn), mission(name, nn), budget=400))
    for nn in (1, 3) + pick(tier, (), (5,), (5, 7)):
        for fp in ("climb", "cruise", "descent", "loiter") if t or nn == 1 else ("climb",):
            out.append(Semantic("throttle/%s/nn%d" % (fp, nn), throttle(fp, nn), budget=200))
    return out
