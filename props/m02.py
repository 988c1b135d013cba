import importlib
import numpy as np
import openmdao.api as om
from openconcept.mission import profiles as R, phases as P
from openconcept.mission.mission_groups import PhaseGroup, TrajectoryGroup
from openconcept.utilities import Integrator, LinearInterpolator, AddSubtractComp, DVLabel
from sx.core import Semantic
from .lib import flat, pick
from . import vehicle as V

TITLE = "Mission phases join without gaps"
BOUNDS = ["every profile (basic with and without ground roll, reserve, full with both transition methods, full with reserve), 3, 5 and 11 nodes per phase (thorough also 7, 9), all state histories; five vehicle models (tagged states, nested integrators, phase-specific states, states named like those the profiles leave unlinked, "
          "promoted and hidden integrators) and the example aircraft; altitude is free by design at the start of the reserve climb and of the loiter"]
SPEC = {"*": (None, None), "*duration": (0, None)}
PROFILES = {
    "basic": (R.BasicMission, {}),
    "basic+groundroll": (R.BasicMission, {"include_ground_roll": True}),
    "reserve": (R.MissionWithReserve, {}),
    "full/simplified": (R.FullMissionAnalysis, {"transition_method": "simplified"}),
    "full/ode": (R.FullMissionAnalysis, {"transition_method": "ode"}),
    "full+reserve/simplified": (R.FullMissionWithReserve, {"transition_method": "simplified"}),
    "full+reserve/ode": (R.FullMissionWithReserve, {"transition_method": "ode"}),
}
FLY = [("climb", "cruise"), ("cruise", "descent")]
RES = [("descent", "reserve_climb"), ("reserve_climb", "reserve_cruise"), ("reserve_cruise", "reserve_descent"), ("reserve_descent", "loiter")]
TO = [("v0v1", "v1vr"), ("v0v1", "v1v0"), ("v1vr", "rotate"), ("rotate", "climb")]


def pairs(name):
    out = list(FLY)
    if name.startswith("full"):
        out = TO + out
    if name == "basic+groundroll":
        out = [("groundroll", "climb")] + out
    if "reserve" in name:
        out += RES
    return out


def keep(path, c):
    return not isinstance(c, (Integrator, LinearInterpolator, AddSubtractComp, P.FlipVectorComp, DVLabel))


def declared(c):
    """(state, start, end, zero start) of each state of an integrator; by the default names where it does not tell"""
    try:
        return [(o["name"], o["start_name"], o["end_name"], o.get("zero_start", False)) for o in c._state_vars.values()]
    except (AttributeError, KeyError, TypeError):
        out, inp = ([k.rsplit(".", 1)[1] for k in c._var_abs2meta[t]] for t in ("output", "input"))
        return [(o, o + "_initial", o + "_final", o + "_initial" not in inp) for o in out if o + "_final" in out]


def states(g, phase):
    """relative path of every integrated state of the phase"""
    pre = "g." + phase + "."
    out = {}
    for c in g.gm.comps:
        if isinstance(c, Integrator) and c.pathname.startswith(pre):
            for s, a, e, z in declared(c):
                out[c.pathname[len(pre):] + "." + s] = (c.pathname + "." + s, c.pathname + "." + a, c.pathname + "." + e, z)
    return out


def first_last(env, g, s):
    v = flat(g.val(s[0]))
    return v[0], v[-1]


def skip(a, b, st):
    if b in ("reserve_climb", "loiter") and a != "reserve_climb" and st in ("ode_integ_phase.fltcond|h", "x|h"):
        return True
    return False


def profile(name, veh, nn):
    cls, opts = PROFILES[name]

    def fn(env):
        g = env.group(lambda: cls(num_nodes=nn, aircraft_model=V.KINDS[veh] if isinstance(veh, str) else veh(), **opts), key=("prof", name, veh, nn), opaque=keep,
                      spec=SPEC)
        for a, b in pairs(name):
            sa, sb = states(g, a), states(g, b)
            common = [s for s in sa if s in sb and not skip(a, b, s)]
            for s in common:
                if b in ("v1v0", "v1vr") and s == "ode_integ_phase.fltcond|Utrue":
                    continue  # joined by the decision-speed equation, decided under M04
                va, vb = flat(g.val(sa[s][0]))[-1], flat(g.val(sb[s][0]))[0]
                env.eq("%s -> %s: %s" % (a, b, s), vb, va)
                env.eq("%s: %s_final" % (a, s), flat(g.val(sa[s][2]))[-1], va)
            # range and altitude by their public names, whichever component integrates them
            env.eq("%s -> %s: range" % (a, b), flat(g.val(b + ".range", "m"))[0], flat(g.val(a + ".range", "m"))[-1])
            if not skip(a, b, "x|h") and b not in ("v1vr", "v1v0", "rotate") and a != "groundroll":
                env.eq("%s -> %s: altitude" % (a, b), flat(g.val(b + ".fltcond|h", "m"))[0], flat(g.val(a + ".fltcond|h", "m"))[-1])
            if (a, b) in (("v0v1", "v1vr"), ("v1vr", "rotate")) and not (b == "rotate" and "simplified" in name):
                start = g.val("takeoff|v1", "m/s") if b == "v1vr" else flat(g.val("v1vr.fltcond|Utrue", "m/s"))[-1:]
                env.eq("%s starts at the speed it is handed" % b, flat(g.val(b + ".fltcond|Utrue", "m/s"))[:1], start)
        # each phase's own time drives each of its integrators; every tagged rate has its state
        for ph in sorted({p for q in pairs(name) for p in q}):
            for c in g.gm.comps:
                if isinstance(c, Integrator) and c.pathname.startswith("g.%s." % ph):
                    env.eq("%s uses the phase's duration" % c.pathname[2:], flat(g.inval(c.pathname + ".duration", "s")), flat(g.val(ph + ".duration", "s")))
            tagged = [o for o, m in g.gm.out_meta.items() if o.startswith("g.%s." % ph) and "integrate" in (m.get("tags") or ())]
            for o in tagged:
                tags = dict(t.split(":", 1) for t in g.gm.out_meta[o]["tags"] if ":" in t)
                owner = [s for s in states(g, ph).values() if s[0].endswith("." + tags["state_name"])]
                env.gt("state %s of %s exists" % (tags["state_name"], ph), len(owner), 0)
                for s in owner:
                    q, r = flat(g.val(s[0], tags["state_units"])), flat(g.val(o, tags["state_units"] + "/s"))
                    T = flat(g.val(ph + ".duration", "s"))[0]
                    if not isinstance(T, float) or not env.real or True:
                        h = T / (nn - 1)
                        for i in range(0, nn - 1, 2):
                            env.eq("%s: %s integrates its rate from node %d" % (ph, tags["state_name"], i), (q[i + 2] - q[i]) * 3, h * (r[i] + 4 * r[i + 1] + r[i + 2]))
    return fn


class Chain(TrajectoryGroup):
    """a user's own trajectory: phases linked in an order of their own, with states to skip"""

    def __init__(self, skips=(), nn=3, **kw):
        self.skips, self.nn = skips, nn
        super().__init__(**kw)

    def setup(self):
        ph = []
        for i in range(3):
            p = self.add_subsystem("leg%d" % i, Leg(num_nodes=self.nn))
            ph.append(p)
        self.link_phases(ph[2], ph[0], states_to_skip=list(self.skips))
        self.link_phases(ph[0], ph[1])


class Leg(PhaseGroup):
    """states of many names: several share a local name, or one is a part, a prefix or a suffix of another"""

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("time", om.IndepVarComp("duration", val=10.0, units="s"), promotes_outputs=["*"])
        kw = dict(num_nodes=nn, diff_units="s", time_setup="duration", method="simpson")
        i = self.add_subsystem("motion", Integrator(**kw), promotes_outputs=["x", "xs", "gx", "x|h"])
        for n in ("x", "xs", "gx", "x|h"):
            i.add_integrand(n, rate_name="v_" + n.replace("|", "_"), units="m")
        j = self.add_subsystem("inner", om.Group())
        k = j.add_subsystem("store", Integrator(**kw))
        k.add_integrand("charge", rate_name="cur", units="C")
        k.add_integrand("temp", rate_name="dT", units="K")
        k.add_integrand("x", rate_name="dx", units="m")
        k = j.add_subsystem("store2", Integrator(**kw))
        k.add_integrand("charge", rate_name="cur", units="C")
        k.add_integrand("x", rate_name="dx", units="m")
        k = self.add_subsystem("store", Integrator(**kw))
        k.add_integrand("charge", rate_name="cur", units="C")
        for n in ("leg2", "preleg2"):
            k = self.add_subsystem(n, om.Group()).add_subsystem("store", Integrator(**kw))
            k.add_integrand("charge", rate_name="cur", units="C")


LEG = {"x": "motion.x_initial", "xs": "motion.xs_initial", "gx": "motion.gx_initial", "x|h": "motion.x|h_initial"}
LEG.update((s, s + "_initial") for s in ("inner.store.charge", "inner.store.temp", "inner.store.x", "inner.store2.charge", "inner.store2.x", "store.charge", "leg2.store.charge", "preleg2.store.charge"))
SKIPS = ((), ("x",), ("motion.x", "xs"), ("gx", "store.charge"), ("inner.store.charge",), ("inner.store2.x", "x|h", "inner.store.temp"), ("preleg2.store.charge",), ("leg2.store.charge",))


def chain(skips, nn):
    def fn(env):
        g = env.group(lambda: Chain(skips, nn), key=("chain", skips, nn), spec=SPEC)
        for a, b in (("leg2", "leg0"), ("leg0", "leg1")):
            for s, init in LEG.items():
                va, vb = flat(g.val("%s.%s" % (a, s)))[-1], flat(g.val("%s.%s" % (b, s)))[0]
                if (a, b) == ("leg2", "leg0") and (s in skips or s in LEG and init[:-8] in skips):
                    env.eq("%s -> %s: %s is left to its own initial value" % (a, b, s), vb, flat(g.inval("%s.%s" % (b, init)))[0])
                    src = g.gm.conn["g.%s.%s" % (b, init)]
                    env.eq("%s -> %s: %s is not linked" % (a, b, s), 0.0 if src.startswith("g.leg") else 1.0, 1.0)
                else:
                    env.eq("%s -> %s: %s" % (a, b, s), vb, va)
    return fn


EXAMPLES = {"B738": ("B738", "B738AirplaneModel", "reserve"), "Caravan": ("Caravan", "CaravanAirplaneModel", "full/simplified"),
            "KingAir": ("KingAirC90GT", "KingAirC90GTModel", "full/simplified"), "TBM850": ("TBM850", "TBM850AirplaneModel", "full/simplified"),
            "HybridTwin": ("HybridTwin", "SeriesHybridTwinModel", "full/simplified"),
            "B738sizing": ("B738_sizing", "B738AircraftModel", "full+reserve/simplified")}


def example(mod, cls):
    def get():
        return getattr(importlib.import_module("openconcept.examples." + mod), cls)
    return get


GET = {k: example(m, c) for k, (m, c, p) in EXAMPLES.items()}


def harnesses(tier):
    out = []
    t = tier != "quick"
    for nn in (3,) + pick(tier, (), (5, 11), (5, 7, 9, 11)):
        for name in PROFILES:
            for veh in V.KINDS:
                out.append(Semantic("%s/%s/nn%d" % (name, veh, nn), profile(name, veh, nn), budget=300))
        for sk in SKIPS:
            out.append(Semantic("own-trajectory/skip %s/nn%d" % (",".join(sk) or "nothing", nn), chain(sk, nn)))
        for ex, (m, c, p) in EXAMPLES.items():
            out.append(Semantic("example/%s/%s/nn%d" % (ex, p, nn), profile(p, GET[ex], nn), budget=300))
    return out
