import importlib
import numpy as np
import openmdao.api as om
from openconcept.energy_storage.battery import SOCBattery
from openconcept.mission import IntegratorGroup
from openconcept.utilities import Integrator, AddSubtractComp
from sx.core import Semantic
from .lib import flat, pick
from .i01 import ipoly, poly
from .e01 import pack, PACK

TITLE = "Stored energy is bookkept exactly"
BOUNDS = ["all loads, fuel flows, durations, initial charges and sizes; 1, 3, 5, 7, 11 nodes (thorough up to 21); the battery alone, a "
          "generic vehicle built on the integrator group, and the propulsion-independent bookkeeping of the example aircraft"]
SIGNED = {"*elec_load": (None, None), "*SOC_initial": (0, 1), "*duration": (0, None), "*fuel_flow": (None, None), "*_initial": (None, None)}


def simpson(r, T, n):
    """integral of the piecewise parabola through the samples r, at the even nodes; T total time"""
    dt = T / (n - 1)
    out, s = {0: 0}, 0
    for i in range(0, n - 1, 2):
        s = s + dt * (r[i] + 4 * r[i + 1] + r[i + 2]) / 3
        out[i + 2] = s
    return out


def battery(nn, opts={}):
    """the specific energy includes the losses inside the battery: its efficiency only sets the heat"""
    def fn(env):
        g = env.group(lambda: SOCBattery(num_nodes=nn, **opts), key=("batt", nn) + tuple(sorted(opts.items())), spec=SIGNED)
        P = flat(g.val("elec_load", "W"))
        # usable energy in joules: mass times specific energy
        E = flat(g.val("battery_weight", "kg") * g.val("specific_energy", "W*h/kg") * 3600)[0]
        S0, S, T = flat(g.val("SOC_initial"))[0], flat(g.val("SOC")), flat(g.val("duration", "s"))[0]
        env.eq("starts at the initial charge", S[0], S0)
        env.eq("final charge is the last charge", g.val("SOC_final"), S[-1:])
        env.eq("stored energy", g.val("max_energy", "J"), np.array([E]))
        if nn > 1:
            for i, w in simpson(P, T, nn).items():
                env.eq("charge drops by the drawn energy at node %d" % i, (S0 - S[i]) * E, w)
            # within a pair of intervals: integral of the parabola over its first half
            dt = T / (nn - 1)
            for i in range(1, nn, 2):
                env.eq("charge at node %d" % i, (S[i - 1] - S[i]) * E * 12, dt * (5 * P[i - 1] + 8 * P[i] - P[i + 1]))
    return fn


class Tank(IntegratorGroup):
    """a vehicle with one tagged rate per state"""
    FLOW = dict(units="kg/s", tags=["integrate", "state_name:fuel_used", "state_units:kg", "state_val:1.0", "state_promotes:True"])
    HEAT = dict(units="W", tags=["integrate", "state_name:heat", "state_units:kJ", "state_val:0.0", "state_promotes:True"])

    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("engine", om.ExecComp(["fuel_flow=2*ff", "q=3*ff*lhv"], ff=dict(shape=(nn,), units="kg/s"),
                                                 lhv=dict(units="J/kg"), fuel_flow=dict(self.FLOW, shape=(nn,)), q=dict(self.HEAT, shape=(nn,))),
                           promotes=["*"])
        self.add_subsystem("weight", AddSubtractComp(output_name="weight", input_names=["MTOW", "fuel_used"], units="kg", vec_size=[1, nn],
                                                     scaling_factors=[1, -1]), promotes=["*"])


def check_state(env, q0, q, qf, rate, T, nn, what):
    """q is the integral of rate"""
    env.eq(what + " starts at its initial value", q[0], q0)
    env.eq(what + " final value is the last", qf, q[-1])
    if nn > 1:
        for i, w in simpson(rate, T, nn).items():
            env.eq("%s at node %d" % (what, i), q[i] - q0, w)
        dt = T / (nn - 1)
        for i in range(1, nn, 2):
            env.eq("%s at node %d" % (what, i), (q[i] - q[i - 1]) * 12, dt * (5 * rate[i - 1] + 8 * rate[i] - rate[i + 1]))


def tank(nn, tu):
    def fn(env):
        def build():
            g = om.Group()
            t = g.add_subsystem("veh", Tank(num_nodes=nn, time_units=tu), promotes=["*"])
            return g
        g = env.group(build, key=("tank", nn, tu), spec=dict(SIGNED, ff=(None, None)))
        pre = "veh." if g.has("veh.ode_integ.duration") else ""
        T = flat(g.val("ode_integ.duration", "s"))[0]
        check_state(env, flat(g.val("fuel_used_initial", "kg"))[0], flat(g.val("fuel_used", "kg")), flat(g.val("fuel_used_final", "kg"))[0],
                    flat(g.val("fuel_flow", "kg/s")), T, nn, "fuel used")
        check_state(env, flat(g.val("heat_initial", "J"))[0], flat(g.val("heat", "J")), flat(g.val("heat_final", "J"))[0],
                    flat(g.val("q", "W")), T, nn, "heat")
        env.eq("fuel flow", g.val("fuel_flow", "kg/s"), 2 * g.val("ff", "kg/s"))
        env.eq("weight falls by the fuel used", g.val("weight", "kg") + g.val("fuel_used", "kg"), g.val("MTOW", "kg") + 0 * g.val("fuel_used", "kg"))
    return fn


# example aircraft: (module, class, start weight, fuel state, fuel rate)
AIRCRAFT = {
    "B738": ("B738", "B738AirplaneModel", "ac|weights|MTOW", "fuel_used", "fuel_flow"),
    "Caravan": ("Caravan", "CaravanAirplaneModel", "ac|weights|MTOW", "fuel_used", "fuel_flow"),
    "KingAir": ("KingAirC90GT", "KingAirC90GTModel", "ac|weights|MTOW", "fuel_used", "fuel_flow"),
    "TBM850": ("TBM850", "TBM850AirplaneModel", "ac|weights|MTOW", "fuel_used", "propmodel.fuel_flow"),
    "HybridTwin": ("HybridTwin", "SeriesHybridTwinModel", "ac|weights|MTOW", "fuel_used", "fuel_flow"),
    "B738sizing": ("B738_sizing", "B738AircraftModel", "ac|weights|MTOW", "fuel_burn", "propulsion_multiplier.fuel_flow"),
}


def keep(path, c):
    return not (isinstance(c, (Integrator, AddSubtractComp)) and not path.split(".")[1].startswith(("propmodel", "drag", "OEW")))


def aircraft(name, nn, phase):
    mod, cls, w0, fuel, flow = AIRCRAFT[name]

    def fn(env):
        C = getattr(importlib.import_module("openconcept.examples." + mod), cls)
        g = env.group(lambda: C(num_nodes=nn, flight_phase=phase), key=("ac", name, nn, phase), opaque=keep,
                      spec=dict(SIGNED, **{"*fuel_used*": (None, None), "*fuel_burn*": (None, None)}))
        st = [o for o in g.gm.out_meta if o.rsplit(".", 1)[1] == fuel][0]
        pre = st.rsplit(".", 1)[0]
        T = flat(g.val(pre + ".duration", "s"))[0]
        q = flat(g.val(st, "kg"))
        check_state(env, flat(g.val(pre + ".%s_initial" % fuel, "kg"))[0], q, flat(g.val(st + "_final", "kg"))[0], flat(g.val(flow, "kg/s")), T, nn,
                    "fuel used")
        env.eq("weight falls by the fuel used", g.val("weight", "kg") + g.val(st, "kg"), g.val(w0, "kg") + 0 * g.val(st, "kg"))
    return fn


def harnesses(tier):
    out = []
    t = tier != "quick"
    for nn in (1, 3, 5) + pick(tier, (), (7, 11), (7, 9, 11, 15, 21)):
        out.append(Semantic("battery/nn%d" % nn, battery(nn)))
        out.append(Semantic("battery/options/nn%d" % nn, battery(nn, dict(efficiency=0.93, specific_power=1500.0, specific_energy=450.0, cost_inc=70.0))))
        for tu in ("s", "min", "h"):
            if nn > 1:
                out.append(Semantic("integrator-group/%s/nn%d" % (tu, nn), tank(nn, tu)))
    for nn in (1, 5):
        for given in ((), ("efficiency",), ("specific_energy",), ("specific_power",), tuple(PACK)):
            out.append(Semantic("battery pack/%s/nn%d" % (",".join(given) if len(given) < 5 else "all options", nn), pack(nn, given)))
    for n in AIRCRAFT:
        for ph in ("climb",) + (("v0v1", "cruise") if t else ()):
            out.append(Semantic("aircraft/%s/%s" % (n, ph), aircraft(n, pick(tier, 3, 5, 9), ph)))
    return out
