import numpy as np
import openmdao.api as om
from openconcept.mission import phases as P
from openconcept.aerodynamics import Lift, StallSpeed
from sx.core import Semantic, Continuity
from .lib import flat, pick

TITLE = "Flight equations balance forces"
BOUNDS = ["all thrusts, drags, lifts, weights, friction coefficients and path angles (airspeed above the vertical speed); 1, 2 and 11 nodes (thorough also 3, 4); "
          "every phase type with the vehicle's forces and the standard atmosphere's temperature, pressure and density as arbitrary functions"]
G = 9.80665
RHO0 = 1.225


def arr(xs, env):
    return np.array(xs, dtype=float if env.real else object)


# --------------------------------------------------------------------------- components
def groundspeed(nn):
    def fn(env):
        U, vs = env.pos("U", nn, base=60.0), env.inp("vs", nn, base=5.0)
        for i in range(nn):
            env.assume(flat(U)[i] ** 2, ">", flat(vs)[i] ** 2)
        o = env.comp(P.Groundspeeds, num_nodes=nn).run({"fltcond|Utrue": U, "fltcond|vs": vs})
        gs, c, s = o["fltcond|groundspeed"], o["fltcond|cosgamma"], o["fltcond|singamma"]
        env.eq("groundspeed and vertical speed make up the airspeed", gs ** 2 + vs ** 2, U ** 2)
        env.ge("groundspeed is not negative", gs, 0)
        env.eq("groundspeed is the horizontal component", gs, U * c)
        env.eq("vertical speed is the vertical component", vs, U * s)
        env.eq("sine and cosine", c ** 2 + s ** 2, 1 + 0 * c)
    return fn


def haccel(nn, side):
    def fn(env):
        m, T, D = env.pos("m", nn, base=5000.0), env.inp("T", nn, base=9e3), env.inp("D", nn, base=3e3)
        L, b, s = env.inp("L", nn, base=2e4), env.inp("mu", nn, 0, base=0.03), env.inp("sing", nn, -1, 1, base=0.1)
        for i in range(nn):
            env.assume(flat(L)[i], "<" if side[i] else ">", flat(m)[i] * G)
        a = env.comp(P.HorizontalAcceleration, num_nodes=nn).run({"weight": m, "drag": D, "lift": L, "thrust": T, "fltcond|singamma": s,
                                                                  "braking": b})["accel_horiz"]
        N = arr([flat(m)[i] * G - flat(L)[i] if side[i] else 0 * flat(m)[i] for i in range(nn)], env)  # normal force on the wheels
        env.eq("Newton's law along the path", m * a, T - D - b * N - m * G * s)
    return fn


def haccel_cont(env):
    nn = 1
    m, T, D = env.pos("m", nn), env.inp("T", nn), env.inp("D", nn)
    L, b, s = env.inp("L", nn), env.inp("mu", nn, 0), env.inp("sing", nn, -1, 1)
    return {"accel_horiz": env.comp(P.HorizontalAcceleration, num_nodes=nn).run(
        {"weight": m, "drag": D, "lift": L, "thrust": T, "fltcond|singamma": s, "braking": b})["accel_horiz"]}


def vaccel(nn, case):
    def fn(env):
        m, T, D = env.pos("m", nn, base=5000.0), env.inp("T", nn, base=9e3), env.inp("D", nn, base=3e3)
        L, s, c = env.inp("L", nn, base=6e4), env.inp("sing", nn, -1, 1, base=0.1), env.inp("cosg", nn, -1, 1, base=0.9)
        F = L * c + (T - D) * s - m * G
        for f, mm in zip(flat(F), flat(m)):
            if case == "low":
                env.assume(f, "<", -G * mm)
            elif case == "high":
                env.assume(f, ">", 2.5 * G * mm)
            else:
                env.assume(f, ">=", -G * mm)
                env.assume(f, "<=", 2.5 * G * mm)
        a = env.comp(P.VerticalAcceleration, num_nodes=nn).run({"weight": m, "drag": D, "lift": L, "thrust": T, "fltcond|singamma": s,
                                                                "fltcond|cosgamma": c})["accel_vert"]
        if case == "inside":
            env.eq("Newton's law in the vertical", m * a, F)
        else:
            env.eq("limited to the stated load factors", a, arr([-G if case == "low" else 2.5 * G] * nn, env))
    return fn


def steady(nn):
    def fn(env):
        m, q, S = env.pos("m", nn, base=5000.0), env.pos("q", nn, base=3000.0), env.pos("S", base=20.0)
        c = env.inp("cosg", nn, -1, 1, base=0.9)
        CL = np.array(env.comp(P.SteadyFlightCL, num_nodes=nn).run({"weight": m, "fltcond|q": q, "ac|geom|wing|S_ref": S, "fltcond|cosgamma": c})["fltcond|CL"])
        L = env.comp(Lift, num_nodes=nn).run({"fltcond|CL": CL, "fltcond|q": q, "ac|geom|wing|S_ref": S})["lift"]
        env.eq("lift supports the weight component normal to the path", L, m * G * c)
    return fn


def climb_angle(nn):
    def fn(env):
        m, T, D = env.pos("m", nn, base=5000.0), env.inp("T", nn, 0, base=9e3), env.inp("D", nn, 0, base=3e3)
        for i in range(nn):
            env.assume((flat(T)[i] - flat(D)[i]) ** 2, "<=", (flat(m)[i] * G) ** 2)
        gam = env.comp(P.ClimbAngleComp, num_nodes=nn).run({"weight": m, "thrust": T, "drag": D})["gamma"]
        env.eq("m g sin(gamma) = T - D", m * G * env.math("sin", gam), T - D)
    return fn


def stall(env):
    m, S, CL = env.pos("m", base=5000.0), env.pos("S", base=20.0), env.pos("CL", base=2.0)
    V = env.comp(StallSpeed).run({"weight": m, "ac|geom|wing|S_ref": S, "CLmax": CL})["Vstall_eas"]
    env.eq("maximum lift at stall speed carries the weight", RHO0 * V ** 2 * S * CL / 2, m * G + 0 * V)
    env.gt("stall speed is positive", V, 0)


def transition(cleared):
    def fn(env):
        U, gam = env.pos("U", (1,), base=60.0), env.inp("gamma", (1,), 0.001, 1.5, base=0.1)
        h, n = env.pos("h_obs", base=10.0), env.inp("n", (), 1.001, None, base=1.2)
        R = U ** 2 / ((n - 1) * G)  # arc flown at load factor n: m V^2 / R = (n - 1) m g
        ht = R * (1 - env.math("cos", gam))
        env.assume(flat(ht)[0], ">" if cleared else "<=", h)
        if cleared:
            env.assume(flat(R)[0], ">", h)
        o = env.comp(P.TakeoffTransition, symopts={"h_obstacle": h, "load_factor": n}).run({"fltcond|Utrue": U, "gamma": gam})
        env.eq("time is distance over speed", o["t_transition"] * U, o["s_transition"])
        if cleared:
            env.eq("stops at the obstacle height", o["h_transition"], h + 0 * U)
            env.eq("the point reached is on the arc", (R - h) ** 2 + o["s_transition"] ** 2, R ** 2)
            env.ge("forwards", o["s_transition"], 0)
        else:
            env.eq("height gained along the arc", o["h_transition"], ht)
            env.eq("distance along the arc", o["s_transition"], R * env.math("sin", gam))
    return fn


def climbout(env):
    U, gam = env.pos("U", (1,), base=60.0), env.inp("gamma", (1,), 0.001, 1.5, base=0.1)
    h, ht = env.pos("h_obs", base=10.0), env.inp("ht", (1,), 0, base=4.0)
    o = env.comp(P.TakeoffClimb, symopts={"h_obstacle": h}).run({"fltcond|Utrue": U, "gamma": gam, "h_transition": ht})
    env.eq("climbs the remaining height along the path", o["s_climb"] * env.math("sin", gam), (h - ht) * env.math("cos", gam))
    env.eq("time is distance over speed", o["t_climb"] * U, o["s_climb"])


def flip(nn, neg, units):
    def fn(env):
        v = env.inp("v", nn, base=1.0)
        w = flat(env.comp(P.FlipVectorComp, num_nodes=nn, negative=neg, units=units).run({"vec_in": v})["vec_out"])
        for i in range(nn):
            env.eq("element %d" % i, w[i], (-1 if neg else 1) * flat(v)[nn - 1 - i])
    return fn


# --------------------------------------------------------------------------- whole phases
class Forces(om.ExplicitComponent):
    """stands for any vehicle: what it is given is checked, what it returns is arbitrary"""

    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        nn = self.options["num_nodes"]
        for n, u in (("fltcond|CL", None), ("fltcond|q", "Pa"), ("throttle", None), ("fltcond|rho", "kg/m**3"), ("fltcond|Utrue", "m/s"),
                     ("propulsor_active", None), ("fltcond|h", "m")):
            self.add_input(n, units=u, shape=(nn,))
        self.add_input("ac|geom|wing|S_ref", units="m**2")
        self.add_input("ac|weights|MTOW", units="kg")
        for n, u in (("thrust", "N"), ("drag", "N"), ("weight", "kg")):
            self.add_output(n, units=u, shape=(nn,))

    def compute(self, inputs, outputs):
        pass


class Vehicle(om.Group):
    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("flight_phase", default=None)

    def setup(self):
        self.add_subsystem("forces", Forces(num_nodes=self.options["num_nodes"]), promotes=["*"])


def opq(path, c):
    return type(c) is Forces or type(c).__name__ in ("TemperatureComp", "PressureComp", "DensityComp", "SpeedOfSoundComp", "MachNumberComp",
                                                       "InvertedTrueAirspeedComp")


SPEC = {"*accel*": (None, None), "*fltcond|vs*": (None, None), "*range*": (None, None), "*fltcond|h*": (None, None), "*duration*": (0, None),
        "drag": (0, None), "thrust": (None, None), "braking": "const", "propulsor_active": "const"}
FIXED = {"throttle": "const", "fltcond|CL": "const", "fltcond|h": "const", "fltcond|vs": "const", "fltcond|cosgamma": "const"}


def airdata(env, g):
    """dynamic pressure and lift of the phase"""
    rho, U, q = g.val("fltcond|rho", "kg/m**3"), g.val("fltcond|Utrue", "m/s"), g.val("fltcond|q", "Pa")
    env.eq("dynamic pressure", q * 2, rho * U ** 2)
    return rho, U, q


def given(env, g, names):
    for n, u in names:
        for a in g.inputs("", n):
            if "forces" in a:
                env.eq("vehicle gets " + n, g.inval(a, u), g.val(n, u))


ALL = (("fltcond|CL", None), ("fltcond|q", "Pa"), ("throttle", None), ("fltcond|rho", "kg/m**3"), ("fltcond|Utrue", "m/s"),
       ("propulsor_active", None), ("fltcond|h", "m"))
MU = {"v0v1": 0.03, "v1vr": 0.03, "v1v0": 0.4}
SET = {"v0v1": (1, 1), "v1vr": (1, 0), "v1v0": (0, 0), "rotate": (1, 0), "climb": (None, 1), "AllEngineClimbAngle": (1, 1),
       "EngineOutClimbAngle": (1, 0)}


def setting(env, g, fp, nn):
    th, act = SET[fp]
    if th is not None:
        env.eq("throttle setting", g.val("throttle"), arr([th] * nn, env))
    env.eq("engine state", g.val("propulsor_active"), arr([act] * nn, env))


def ground(fp, nn, airborne):
    def fn(env):
        # the speed history is an arbitrary function here (its integration is M02/M04's business)
        g = env.group(lambda: P.GroundRollPhase(num_nodes=nn, flight_phase=fp, aircraft_model=Vehicle), key=("gr", fp, nn),
                      opaque=lambda p, c: opq(p, c) or type(c).__name__ in ("Integrator", "BalanceComp"), spec=dict(FIXED, **dict(SPEC, **{"vel_q": (0.1, None), "*Utrue*": (0.1, None)})))
        rho, U, q = airdata(env, g)
        S, m = g.val("ac|geom|wing|S_ref", "m**2"), g.val("weight", "kg")
        given(env, g, ALL)
        setting(env, g, fp, nn)
        L = q * S * 0.1
        env.eq("ground-roll lift", g.val("lift", "N"), L)
        for i in range(nn):
            env.assume(flat(L)[i], ">=" if airborne else "<", flat(m)[i] * G)
        T, D = g.val("thrust", "N"), g.val("drag", "N")
        N = 0 * m if airborne else m * G - L
        env.eq("Newton's law on the runway", g.val("accel_horiz", "m/s**2") * m, T - D - MU[fp] * N)
        env.eq("distance rate is the true airspeed", g.val("fltcond|groundspeed", "m/s"), U)
        env.eq("rotation speed", g.val("takeoff|vr", "m/s"), g.val("Vstall_eas", "m/s") * g.val("vr_vstall_mult"))
        V = g.val("Vstall_eas", "m/s")
        env.eq("stall speed", V ** 2 * RHO0 * S * g.val("ac|aero|CLmax_TO") / 2, g.val("ac|weights|MTOW", "kg") * G)
        # rates handed to the integrators
        for a in g.inputs("ode_integ_phase", "range_rate") + g.inputs("ode_integ_phase", "fltcond|groundspeed"):
            env.eq("range integrates the groundspeed", g.inval(a, "m/s"), U)
        for a in g.inputs("ode_integ_phase", "accel_horiz"):
            env.eq("speed integrates the acceleration", g.inval(a, "m/s**2") * m, T - D - MU[fp] * N)
        for a in g.inputs("ode_integ_phase", "vel_dqdt"):
            env.eq("speed integrates the reversed acceleration", flat(g.inval(a, "m/s**2"))[::-1] * -1 * flat(m), flat(T - D - MU[fp] * N))
    return fn


def rotation(nn):
    def fn(env):
        g = env.group(lambda: P.RotationPhase(num_nodes=nn, flight_phase="rotate", aircraft_model=Vehicle), key=("rot", nn),
                      opaque=lambda p, c: opq(p, c) or type(c).__name__ in ("Integrator", "BalanceComp"), spec=dict(SPEC, **{"throttle": "const", "*Utrue*": (0.1, None)}))
        U, vs = g.val("fltcond|Utrue", "m/s"), g.val("fltcond|vs", "m/s")
        rho, U, q = airdata(env, g)
        S, m = g.val("ac|geom|wing|S_ref", "m**2"), g.val("weight", "kg")
        T, D = g.val("thrust", "N"), g.val("drag", "N")
        for i in range(nn):
            env.assume(flat(U)[i] ** 2, ">", flat(vs)[i] ** 2)
        given(env, g, ALL)
        setting(env, g, "rotate", nn)
        L = g.val("lift", "N")
        env.eq("rotation lift", L, q * S * g.val("CL_rotate_mult") * g.val("ac|aero|CLmax_TO"))
        s, gs = vs / U, g.val("fltcond|groundspeed", "m/s")
        env.eq("groundspeed", gs ** 2 + vs ** 2, U ** 2)
        env.eq("Newton's law along the path", g.val("accel_horiz", "m/s**2") * m, T - D - m * G * s)
        F = L * gs / U + (T - D) * s - m * G
        for i in range(nn):
            env.assume(flat(F)[i], ">=", -G * flat(m)[i])
            env.assume(flat(F)[i], "<=", 2.5 * G * flat(m)[i])
        env.eq("Newton's law in the vertical", g.val("accel_vert", "m/s**2") * m, F)
        for pre, nme, v, u in (("intvelocity", "accel_horiz", "accel_horiz", "m/s**2"), ("intrange", "fltcond|groundspeed", "fltcond|groundspeed", "m/s"),
                               ("intvs", "accel_vert", "accel_vert", "m/s**2"), ("inth", "fltcond|vs", "fltcond|vs", "m/s")):
            env.eq("%s integrates %s" % (pre, v), g.inval("%s.%s" % (pre, nme), u), g.val(v, u))
    return fn


def steady_phase(fp, nn):
    def fn(env):
        def build():
            ph = P.SteadyFlightPhase(num_nodes=nn, flight_phase=fp, aircraft_model=Vehicle)
            ph.add_subsystem("given_duration", om.IndepVarComp("duration", val=100.0, units="s"), promotes_outputs=["*"])
            return ph

        g = env.group(build, key=("sf", fp, nn),
                      opaque=lambda p, c: opq(p, c) or type(c).__name__ == "Integrator",
                      spec=dict(SPEC, **{"braking": "const", "fltcond|Ueas": (0.1, None), "zero_accel": (None, None)}))
        U, vs = g.val("fltcond|Utrue", "m/s"), g.val("fltcond|vs", "m/s")
        rho, U, q = airdata(env, g)
        env.eq("true airspeed from the commanded equivalent airspeed", rho * U ** 2, RHO0 * g.val("fltcond|Ueas", "m/s") ** 2)
        for i in range(nn):
            env.assume(flat(U)[i] ** 2, ">", flat(vs)[i] ** 2)
        S, m = g.val("ac|geom|wing|S_ref", "m**2"), g.val("weight", "kg")
        T, D, gs = g.val("thrust", "N"), g.val("drag", "N"), g.val("fltcond|groundspeed", "m/s")
        given(env, g, ALL)
        setting(env, g, "climb", nn)
        env.eq("groundspeed", gs ** 2 + vs ** 2, U ** 2)
        L = g.val("lift", "N")
        env.eq("lift supports the weight component normal to the path", L * U, m * G * gs)
        env.eq("lift coefficient", g.val("fltcond|CL") * q * S, L)
        env.eq("acceleration along the path", g.val("accel_horiz", "m/s**2") * m, T - D - m * G * vs / U)
        for nme, v, u in (("fltcond|vs", "fltcond|vs", "m/s"), ("fltcond|groundspeed", "fltcond|groundspeed", "m/s")):
            env.eq("phase integrates " + v, g.inval("ode_integ_phase." + nme, u), g.val(v, u))
    return fn


def climb_phase(fp, nn):
    def fn(env):
        g = env.group(lambda: P.ClimbAnglePhase(num_nodes=nn, flight_phase=fp, aircraft_model=Vehicle), key=("ca", fp, nn), opaque=opq, spec=dict(FIXED, **SPEC))
        rho, U, q = airdata(env, g)
        S, M = g.val("ac|geom|wing|S_ref", "m**2"), g.val("ac|weights|MTOW", "kg")
        T, D = g.val("thrust", "N"), g.val("drag", "N")
        for i in range(nn):
            env.assume((flat(T)[i] - flat(D)[i]) ** 2, "<=", (flat(M)[0] * G) ** 2)
        v2, V = g.val("takeoff|v2", "m/s"), g.val("Vstall_eas", "m/s")
        env.eq("climb speed is the stated multiple of stall", v2, V * g.val("v2_vstall_mult"))
        env.eq("stall speed", V ** 2 * RHO0 * S * g.val("ac|aero|CLmax_TO") / 2, M * G)
        env.eq("flown at that speed", rho * U ** 2, RHO0 * v2 ** 2 + 0 * U)
        env.eq("lift supports the weight", g.val("fltcond|CL") * q * S, M * G + 0 * q)
        env.eq("m g sin(gamma) = T - D", M * G * env.math("sin", g.val("gamma", "rad")), T - D)
        given(env, g, ALL)
        setting(env, g, fp, nn)
    return fn


def robust(nn, hobs):
    def fn(env):
        g = env.group(lambda: P.RobustRotationPhase(num_nodes=nn, flight_phase="rotate", aircraft_model=Vehicle, **({} if hobs is None else {"h_obstacle": hobs})),
                      key=("rr", nn, hobs), opaque=lambda p, c: opq(p, c) or isinstance(c, (P.TakeoffTransition, P.TakeoffClimb)),
                      spec=dict(SPEC, **{"throttle": "const", "fltcond|vs": "const", "fltcond|cosgamma": "const"}))
        rho, U, q = airdata(env, g)
        S, m = g.val("ac|geom|wing|S_ref", "m**2"), g.val("weight", "kg")
        T, D = g.val("thrust", "N"), g.val("drag", "N")
        for i in range(nn):
            env.assume((flat(T)[i] - flat(D)[i]) ** 2, "<=", (flat(m)[i] * G) ** 2)
        V = g.val("Vstall_eas", "m/s")
        env.eq("stall speed", V ** 2 * RHO0 * S * g.val("ac|aero|CLmax_TO") / 2, g.val("ac|weights|MTOW", "kg") * G)
        vr, v2 = g.val("takeoff|vr", "m/s"), g.val("takeoff|v2", "m/s")
        env.eq("rotation speed", vr, V * g.val("vr_vstall_mult"))
        env.eq("climb-out speed", v2, V * g.val("v2_vstall_mult"))
        E = g.val("fltcond|Ueas", "m/s")
        env.eq("starts at rotation speed", flat(E)[:1], flat(vr))
        env.eq("ends at climb-out speed", flat(E)[-1:], flat(v2) if nn > 1 else flat(vr))
        env.eq("true airspeed", rho * U ** 2, RHO0 * E ** 2)
        env.eq("lift supports the weight", g.val("fltcond|CL") * q * S, m * G)
        gam = g.val("gamma", "rad")
        env.eq("m g sin(gamma) = T - D", m * G * env.math("sin", gam), T - D)
        given(env, g, ALL)
        setting(env, g, "rotate", nn)
        for comp, k in (("transition", 0), ("v2climb", -1)):
            env.eq("%s speed" % comp, flat(g.inval(comp + ".fltcond|Utrue", "m/s")), [flat(U)[k]])
            env.eq("%s angle" % comp, flat(g.inval(comp + ".gamma", "rad")), [flat(gam)[k]])
        env.eq("climb-out starts where the transition ends", g.inval("v2climb.h_transition", "m"), g.val("h_transition", "m"))
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    for nn in (1, 2, 11) + pick(tier, (), (3,), (3, 4)):
        out += [Semantic("groundspeed/nn%d" % nn, groundspeed(nn)), Semantic("steady-flight/nn%d" % nn, steady(nn)),
                Semantic("climb-angle/nn%d" % nn, climb_angle(nn))]
        import itertools

        for side in itertools.product((0, 1), repeat=nn) if nn < 5 else ([0] * nn, [1] * nn, [i % 2 for i in range(nn)]):
            out.append(Semantic("along-path/nn%d/%s" % (nn, "".join("ground" if s else "air" for s in side)), haccel(nn, side)))
        for case in ("low", "inside", "high"):
            out.append(Semantic("vertical/nn%d/%s" % (nn, case), vaccel(nn, case)))
    out.append(Continuity("along-path/lift-off", haccel_cont))
    out.append(Semantic("stall-speed", stall))
    out += [Semantic("transition/%s" % ("obstacle cleared" if c else "below obstacle"), transition(c)) for c in (False, True)]
    out.append(Semantic("climb-out", climbout))
    for nn in (1, 2, 5):
        for neg in (False, True):
            out.append(Semantic("reversal/nn%d/%s" % (nn, "negative" if neg else "plain"), flip(nn, neg, "m/s" if nn > 1 else None)))
    for nn in (1, 3) + ((5,) if t else ()):
        for fp in MU:
            for air in (False, True):
                out.append(Semantic("phase/%s/nn%d/%s" % (fp, nn, "air" if air else "ground"), ground(fp, nn, air)))
        if nn == 1:
            out.append(Semantic("phase/rotate-2dof/nn%d" % nn, rotation(nn)))
        for fp in ("climb",) + (("cruise", "descent", "reserve_climb", "loiter") if t else ("loiter",)):
            out.append(Semantic("phase/steady-%s/nn%d" % (fp, nn), steady_phase(fp, nn)))
        for fp in ("AllEngineClimbAngle", "EngineOutClimbAngle") if nn == 1 else ():
            out.append(Semantic("phase/%s/nn%d" % (fp, nn), climb_phase(fp, nn)))
        for h in (None, 15.0):
            if nn > 1:
                out.append(Semantic("phase/rotate-simplified/nn%d/%s" % (nn, h), robust(nn, h)))
    return out
