import numpy as np
import openmdao.api as om
from openconcept.mission import profiles as R, phases as P
from openconcept.aerodynamics import StallSpeed
from openconcept.utilities import Integrator, LinearInterpolator, AddSubtractComp, DVLabel, ElementMultiplyDivideComp
from sx.core import Semantic
from .lib import flat, pick
from . import vehicle as V
from .m03 import rise
from . import m01

TITLE = "Balanced-field takeoff equations close"
BOUNDS = ["takeoff segments of the full profiles at 3, 5, 7 and 11 nodes (thorough also 9), both transition methods; all acceleration and ground-speed "
          "histories; decision-speed equation for all speeds and distances; durations solved exactly from the segment equations"]
KEEP = (Integrator, LinearInterpolator, AddSubtractComp, om.BalanceComp, P.FlipVectorComp, ElementMultiplyDivideComp, StallSpeed)


def keep(path, c):
    return (not isinstance(c, KEEP) or ".acmodel" in path) and not isinstance(c, P.BFLImplicitSolve)


SPEC = {"*groundspeed*": (1.0, 300.0), "*accel_horiz": (0.1, 10.0), "v1v0.*accel_horiz": (-10.0, -0.1), "*duration": (0, None), "*range*": (0, None),
        "*vstall_mult": (1.0, 2.0), "*CLmax*": (0.1, 5), "ac|weights|MTOW": (10.0, None), "ac|geom|wing|S_ref": (1.0, None), "takeoff|v1": (10, 150),
        "*zero_speed": (0.5, 3.0), "*s_transition": (0, None), "*s_climb": (0, None), "*t_*": (0, None), "*h_ob*": (0, None), "*": (None, None)}
RHO0, G = 1.225, 9.80665


def seg(g, ph, nn):
    T = flat(g.val(ph + ".duration", "s"))[0]
    return T * rise(flat(g.val(ph + ".fltcond|groundspeed", "m/s")), nn)


def takeoff(method, reserve, nn, defaults=False):
    def fn(env):
        cls = R.FullMissionWithReserve if reserve else R.FullMissionAnalysis
        g = env.group(lambda: cls(num_nodes=nn, aircraft_model=V.Plain, transition_method=method), key=("m04", method, reserve, nn, defaults), opaque=keep,
                      spec=dict(SPEC, **{"*vstall_mult": "const"}) if defaults else SPEC, only=lambda p: p.split(".")[1] in ("v0v1", "v1vr", "v1v0", "rotate", "bfl", "missionparams", "engineoutclimb"))
        g.close([(p + ".duration", p + ".duration") for p in ("v0v1", "v1vr", "v1v0")])
        U = lambda ph: flat(g.val(ph + ".fltcond|Utrue", "m/s"))
        v1, vr = flat(g.val("takeoff|v1", "m/s"))[0], flat(g.val("v1vr.takeoff|vr", "m/s"))[0]
        for ph in ("v0v1", "v1vr", "v1v0"):
            V_ = flat(g.val(ph + ".Vstall_eas", "m/s"))[0]
            env.eq("%s: rotation speed is the stated multiple of stall speed" % ph, flat(g.val(ph + ".takeoff|vr", "m/s"))[0],
                   V_ * flat(g.val(ph + ".vr_vstall_mult"))[0])
            env.eq("%s: stall speed at the maximum takeoff weight and takeoff lift coefficient" % ph,
                   V_ ** 2 * RHO0 * flat(g.val("ac|geom|wing|S_ref", "m**2"))[0] * flat(g.val("ac|aero|CLmax_TO"))[0] / 2,
                   flat(g.val("ac|weights|MTOW", "kg"))[0] * G)
        env.eq("rolls from the starting speed", U("v0v1")[0], flat(g.val("v0v1.zero_speed", "m/s"))[0])
        env.eq("reaches decision speed", U("v0v1")[-1], v1)
        env.eq("continues from decision speed", U("v1vr")[0], v1)
        env.eq("reaches rotation speed", U("v1vr")[-1], vr)
        env.eq("aborts from decision speed", U("v1v0")[0], v1)
        env.eq("stops", U("v1v0")[-1], flat(g.val("v1v0.zero_speed", "m/s"))[0])
        for ph, a in (("v0v1", 1), ("v1vr", 1), ("v1v0", 1)):
            T = flat(g.val(ph + ".duration", "s"))[0]
            env.eq("%s: speed change is the integrated acceleration" % ph, U(ph)[-1] - U(ph)[0], T * rise(flat(g.val(ph + ".accel_horiz", "m/s**2")), nn))
        go = seg(g, "v0v1", nn) + seg(g, "v1vr", nn)
        if method == "simplified":
            go = go + flat(g.val("rotate.s_transition", "m"))[0] + flat(g.val("rotate.s_climb", "m"))[0]
            env.eq("time in the air adds up", g.val("rotate.duration", "s"), g.val("rotate.t_transition", "s") + g.val("rotate.t_climb", "s"))
            env.eq("ends at the obstacle height", g.val("rotate.fltcond|h_final", "m"), g.val("rotate.h_obstacle", "m"))
            Ur, gr = flat(g.val("rotate.fltcond|Utrue", "m/s")), flat(g.val("rotate.gamma", "rad"))
            for part, k, what in (("transition", 0, "start"), ("v2climb", -1, "end")):
                env.eq("%s flown at the speed at its %s" % (part, what), flat(g.inval("rotate.%s.fltcond|Utrue" % part, "m/s"))[0], Ur[k])
                env.eq("%s flown at the angle at its %s" % (part, what), flat(g.inval("rotate.%s.gamma" % part, "rad"))[0], gr[k])
            for mult, v, other in (("vr", "vr", "v1vr"), ("v2", "v2", "engineoutclimb")):
                env.eq("rotation: %s is the stated multiple of stall" % v, flat(g.val("rotate.takeoff|" + v, "m/s"))[0],
                       flat(g.val("rotate.Vstall_eas", "m/s"))[0] * flat(g.val("rotate.%s_vstall_mult" % mult))[0])
                if defaults:
                    env.eq("%s is the same in every phase" % v, flat(g.val("rotate.takeoff|" + v, "m/s"))[0], flat(g.val("%s.takeoff|%s" % (other, v), "m/s"))[0])
            Ue = flat(g.val("rotate.fltcond|Ueas", "m/s"))
            env.eq("rotation starts at rotation speed", Ue[0], flat(g.val("rotate.takeoff|vr", "m/s"))[0])
            env.eq("rotation ends at climb-out speed", Ue[-1], flat(g.val("rotate.takeoff|v2", "m/s"))[0])
            env.eq("altitude history ends there too", flat(g.val("rotate.fltcond|h", "m"))[-1], flat(g.val("rotate.h_obstacle", "m"))[0])
        else:
            go = go + seg(g, "rotate", nn)
            h = flat(g.val("rotate.fltcond|h_final", "m"))[0]
            ob = flat(g.val("rotate.h_obs", "m"))[0]
            env.eq("obstacle equation", flat(g.residual("rotate.duration"))[0] ** 2, (h - ob) ** 2)
            T = flat(g.val("rotate.duration", "s"))[0]
            env.eq("starts to rotate at rotation speed", U("rotate")[0], vr)
            vs = flat(g.val("rotate.fltcond|vs", "m/s"))
            env.eq("leaves the ground level", vs[0], 0 * vs[0])
            env.eq("height is the integrated vertical speed", h, T * rise(vs, nn))
        env.eq("accelerate-go distance adds up", flat(g.inval("bfl.distance_continue", "m"))[0], go)
        env.eq("accelerate-stop distance adds up", flat(g.inval("bfl.distance_abort", "m"))[0], seg(g, "v0v1", nn) + seg(g, "v1v0", nn))
        env.eq("decision speed is limited by this rotation speed", flat(g.inval("bfl.takeoff|vr", "m/s"))[0], vr)
        env.eq("flown range at the end of the takeoff", flat(g.val("rotate.range_final", "m"))[0], go)
        env.eq("climb-out is flown at the stated multiple of stall", g.val("engineoutclimb.takeoff|v2", "m/s"),
               g.val("engineoutclimb.Vstall_eas", "m/s") * g.val("engineoutclimb.v2_vstall_mult"))
    return fn


def decision(case):
    def fn(env):
        v1, vr = env.inp("v1", (1,), 10, 150, base=40.0), env.inp("vr", (1,), 10, 150, base=60.0)
        go, stop = env.inp("go", (1,), 0, base=900.0), env.inp("stop", (1,), 0, base=700.0)
        if case in ("at rotation, go longer",):
            v1 = vr
        if case == "balanced below rotation":
            go = stop
        a = lambda x, op, y: env.assume(x[0], op, y if isinstance(y, float) else y[0])
        if case == "above rotation":
            a(v1, ">", vr)
        elif case in ("well below", "balanced below rotation"):
            a(v1 + 1.0, "<", vr)
        elif case == "just below, stop longer":
            a(v1, "<=", vr)
            a(stop, ">", go)
        elif case == "just below, go longer":
            a(v1, "<", vr)
            a(go, ">", stop)
        elif case == "at rotation, go longer":
            a(go, ">=", stop)
        r = env.comp(P.BFLImplicitSolve).run({"distance_continue": go, "distance_abort": stop, "takeoff|vr": vr}, {"takeoff|v1": v1})["takeoff|v1"]
        if case == "well below":
            env.eq("equation is the distance difference", r ** 2, (go - stop) ** 2)
        elif case in ("balanced below rotation", "at rotation, go longer"):
            env.eq("accepted as a solution", r, 0 * r)
        else:
            env.gt("not accepted as a solution", r ** 2, 0)
    return fn


def obstacle(h):
    """the requested obstacle height reaches the transition, the climb-out and the altitude history alike"""
    def fn(env):
        g = env.group(lambda: P.RobustRotationPhase(num_nodes=3, flight_phase="rotate", aircraft_model=V.Plain, h_obstacle=h), key=("obst", h), opaque=keep,
                      spec=dict({"h_obstacle": "const"}, **SPEC))
        env.eq("final altitude", flat(g.val("fltcond|h_final", "m"))[0], h)
        ht = env.inp("ht", (1,), 0, h, base=h / 2)
        for c in g.gm.comps:
            if isinstance(c, (P.TakeoffTransition, P.TakeoffClimb)):
                env.eq("%s clears the same height" % type(c).__name__, float(c.options["h_obstacle"]), h)
        sc = [c for c in g.gm.comps if isinstance(c, P.TakeoffClimb)][0]
        gam, U = env.inp("gam", (1,), 0.01, 1.5, base=0.1), env.inp("Uc", (1,), 1, 300, base=50.0)
        o = env.comp(P.TakeoffClimb, h_obstacle=sc.options["h_obstacle"]).run({"gamma": gam, "fltcond|Utrue": U, "h_transition": ht})
        env.eq("climb-out covers the rest of the height", o["s_climb"] * env.math("sin", gam), (h - ht) * env.math("cos", gam))
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    for nn in (3,) + pick(tier, (), (5, 7, 11), (5, 7, 9, 11)):
        for m in ("simplified", "ode"):
            for res in (False, True):
                out.append(Semantic("takeoff/%s/%s/nn%d" % (m, "with reserve" if res else "no reserve", nn), takeoff(m, res, nn), budget=400))
    out.append(Semantic("takeoff/one set of speeds", takeoff("simplified", False, 3, True), budget=400))
    for c in ("above rotation", "well below", "balanced below rotation", "just below, stop longer", "just below, go longer", "at rotation, go longer"):
        out.append(Semantic("decision speed/" + c, decision(c)))
    for c in (False, True):
        out.append(Semantic("transition arc/%s" % ("cleared on the arc" if c else "ends below the obstacle"), m01.transition(c), budget=60))
    out.append(Semantic("climb-out to the obstacle", m01.climbout))
    out.append(Semantic("stall speed", m01.stall))
    for h in (15.24, 30.0):
        out.append(Semantic("obstacle/%s" % h, obstacle(h)))
    return out
