import importlib
import numpy as np
import openmdao.api as om
from openconcept import aerodynamics, weights, propulsion, thermal, atmospherics, energy_storage
from openconcept.propulsion import systems as S
from openconcept.mission import profiles as R, phases as P, mission_groups as MG
from openconcept.thermal import ducts, thermal as th, heat_pipe, chiller, heat_exchanger, motor_cooling, battery_cooling
from openconcept.weights import weights_turboprop, weights_twin_hybrid, weights_jet_transport, weights_BWB
from openconcept.energy_storage.hydrogen import structural, LH2_tank_no_boil_off
from openconcept.aerodynamics import drag_BWB, drag_jet_transport
from openconcept.utilities import (DictIndepVarComp, DVLabel, Integrator, LinearInterpolator, AddSubtractComp, ElementMultiplyDivideComp, VectorConcatenateComp, VectorSplitComp,
                                   MaxComp, MinComp, SelectorComp, FirstDerivative)
from openconcept.utilities.math.integrals import OldIntegrator
from sx.core import Semantic
from sx import core, expr as X, npx, omx, explore
from .lib import flat, pick
from . import vehicle as V
from .m01 import opq

TITLE = "Setting a model up again changes nothing"
BOUNDS = ["two consecutive complete set-ups (with a final set-up between) of the same object, compared with one set-up of another object: every "
          "component of the library in the configurations of the derivative properties, every group that needs no external solver, "
          "every mission profile with a vehicle that has states of every kind (3 nodes; 5 in thorough); all input values"]


def free(path, c):
    return opq(path, c) or isinstance(c, V.Rates)


LIGHT = (Integrator, AddSubtractComp, ElementMultiplyDivideComp, DVLabel, LinearInterpolator, P.FlipVectorComp, om.IndepVarComp, om.ExecComp, om.BalanceComp)


def wires(path, c):
    """components are compared one by one elsewhere: here only what carries values between them is executed"""
    return free(path, c) or not isinstance(c, LIGHT)


def flag(env, label, ok):
    env.eq(label, 0 if ok else 1, 0)


def dense(m):
    v = m["val"]
    return np.asarray(v.toarray() if hasattr(v, "toarray") else v, dtype=float).reshape(-1)


def same_vars(env, io, a, b):
    flag(env, "%s: the same names" % io, set(a) == set(b))
    for n in sorted(set(a) & set(b)):
        x, y = a[n], b[n]
        flag(env, "%s %s: the same units" % (io, n), x["units"] == y["units"])
        flag(env, "%s %s: the same shape" % (io, n), x["shape"] == y["shape"])
        flag(env, "%s %s: the same limits, scaling and tags" % (io, n),
             all(np.array_equal(np.asarray(x[q], dtype=object), np.asarray(y.get(q), dtype=object)) for q in ("lower", "upper", "ref", "ref0", "res_ref") if q in x)
             and set(x.get("tags", ())) == set(y.get("tags", ())))
        flag(env, "%s %s: the same default" % (io, n), x["shape"] == y["shape"] and np.array_equal(x["val"], y["val"], equal_nan=True))


def same_partials(env, a, b, tag=""):
    flag(env, tag + "partials: the same pairs", set(a) == set(b))
    for k in sorted(set(a) & set(b)):
        x, y = a[k], b[k]
        r = lambda m: None if m["rows"] is None else (np.asarray(m["rows"]).tolist(), np.asarray(m["cols"]).tolist())
        flag(env, tag + "d(%s)/d(%s): the same pattern and declared value" % k,
             r(x) == r(y) and x["shape"] == y["shape"] and np.array_equal(dense(x), dense(y), equal_nan=True))


def component(h):
    """h: a derivative harness (one component configuration)"""
    def fn(env):
        env.alike = True
        ms = []
        for n in (1, 2):
            m = env.cache.get(n)
            if m is None:
                with npx.unpatched():
                    m = env.cache[n] = omx.CompModel(h.make(), h.conn, h.values, setups=n)
            ms.append(m)
        one, two = ms
        same_vars(env, "input", one.inputs, two.inputs)
        same_vars(env, "output", one.outputs, two.outputs)
        same_partials(env, one.info, two.info)
        flag(env, "the same pairs are approximated", one.approx == two.approx)
        if set(one.inputs) != set(two.inputs) or set(one.outputs) != set(two.outputs):
            return
        ins, outs = {}, {}
        for src, dst in ((one.inputs, ins), (one.outputs, outs if one.implicit else None)):
            if dst is None:
                continue
            for k, meta in src.items():
                if k in h.fixed:
                    dst[k] = np.broadcast_to(np.asarray(h.fixed[k], dtype=float), meta["shape"]).copy()
                else:
                    lo, hi = h.domain(k, meta)
                    base = np.broadcast_to(np.asarray(h.base.get(k, meta["val"]), dtype=float), meta["shape"])
                    dst[k] = env.inp(k, tuple(meta["shape"]), lo, hi, base=np.where(base == 0, 1.0, base))
                    if env.real and np.shape(base):
                        for i in np.ndindex(*np.shape(base)):
                            nm = k + "[%s]" % ",".join(map(str, i))
                            if nm not in env.point:
                                dst[k][i] = base[i] if base[i] else 1.0
        if h.pre and not env.real:
            core.assume_all(env.ctx, h.pre({k: npx.lift_arr(v) for k, v in ins.items()}))
        res = []
        cls = type(one.comp)
        cn = cls.__module__ + "." + cls.__name__

        def evaluate(m):
            c = m.comp
            has = bool(c._has_linearize if m.implicit else c._has_compute_partials)
            if env.real:
                for k, v in list(ins.items()) + list(outs.items()):
                    core._setreal(m.prob, "c." + k, v)
                with omx.quiet():
                    if m.implicit:
                        m.prob.model.run_apply_nonlinear()
                        o = {k: np.array(c._residuals[k]) for k in m.outputs}
                    else:
                        m.prob.run_model()
                        o = {k: np.array(m.prob.get_val("c." + k)) for k in m.outputs}
                    m.prob.model.run_linearize()
                p = c.pathname + "."
                J = {k: dense(c._subjacs_info[(p + k[0], p + k[1])]) for k in m.info if k[:2] not in {a[:2] for a in m.approx}} if has else {}
            else:
                env.funcs.add(cn + (".apply_nonlinear" if m.implicit else ".compute"))
                o = {k: np.array(v) for k, v in m.run({k: npx.lift_arr(v) for k, v in ins.items()}, {k: npx.lift_arr(v) for k, v in outs.items()}).items()}
                J = {}
                if has:
                    env.funcs.add(cn + (".linearize" if m.implicit else ".compute_partials"))
                    jac = omx.SymJac(m.info)
                    m.partials(jac)
                    jac.settle()
                    J = {k: np.array(dict.__getitem__(jac, k)).reshape(-1) for k in m.info if k[:2] not in {a[:2] for a in m.approx}}
            return o, J
        for m in ms:
            try:
                res.append(evaluate(m))
            except Exception as e:
                if not env.real and not core.is_rejection(e):
                    raise
                res.append(None)
        if None in res:
            flag(env, "refused both times or not at all", res == [None, None])
            return
        (o1, J1), (o2, J2) = res
        for k in o1:
            if np.shape(o1[k]) == np.shape(o2[k]):
                env.eq("%s: the same value" % k, o1[k], o2[k])
        for k in J1:
            if k in J2 and np.shape(J1[k]) == np.shape(J2[k]):
                env.eq("d(%s)/d(%s): the same value" % k, J1[k], J2[k])
    return fn


def sources(gm):
    """input -> where it comes from (automatic sources by public name), indices"""
    out = {}
    for i, o in gm.conn.items():
        si = gm.src_flat(i)
        out[i] = (gm.auto.get(o, o), None if si is None else tuple(np.asarray(si).tolist()))
    return out


def model(build, key, spec=None, opaque=None, setup=None, run=True):
    def fn(env):
        env.alike = True
        op = opaque or (lambda p, c: False)
        gs = []
        for n in (1, 2):
            try:
                g = env.group(build, key=(key, n), spec=dict(spec if spec else {} if key[1].startswith(("arch", "group")) else {"*": (None, None)}) if run else {"*": "const"},
                              opaque=op if run else (lambda p, c: True), setup=setup, setups=n)
            except Exception as e:
                if n == 1 and run and (core.is_rejection(e) or env.real):
                    return  # values the model itself refuses are outside the claim
                raise
            gm = g.gm
            vals = {}
            if run:
                for o in gm.out_meta:
                    if env.real or o in g.vals:
                        vals[gm.auto.get(o, o)] = (np.array(g.val(o) if o in gm.prom_out or not env.real else gm.prob.model._outputs[o]), gm.out_meta[o]["units"])
                rcv = {}
                for i in gm.in_meta:
                    if env.real or gm.conn[i] in g.vals:
                        rcv[i] = (np.array(g.inval(i)), gm.in_meta[i]["units"])
                res = {}
                for o in list(g.res) if not env.real else [o for o in gm.out_meta if o in gm.implicit_out or o in gm.cut]:
                    try:
                        res[gm.auto.get(o, o)] = np.array(g.residual(o))
                    except Exception:
                        if not env.real:
                            raise
            else:
                rcv, res = {}, {}
            gs.append((gm, vals, rcv, res))
        (a, va, ra, sa), (b, vb, rb, sb) = gs
        nm = lambda gm: {gm.auto.get(o, o): m for o, m in gm.out_meta.items()}
        same_vars(env, "output", nm(a), nm(b))
        same_vars(env, "input", a.in_meta, b.in_meta)
        flag(env, "the same public names", a.prom_in == b.prom_in and a.prom_out == b.prom_out)
        x, y = sources(a), sources(b)
        for i in sorted(set(x) & set(y)):
            flag(env, "%s: the same source" % i, x[i] == y[i])
        ca, cb = ({c.pathname: c for c in gm.comps} for gm in (a, b))
        flag(env, "the same components", {k: type(c).__name__ for k, c in ca.items()} == {k: type(c).__name__ for k, c in cb.items()})
        for k in ca:
            if k in cb and not isinstance(ca[k], om.IndepVarComp):
                pick = lambda c: {q: m for q, m in c._subjacs_info.items() if q[0] != q[1]}
                same_partials(env, pick(ca[k]), pick(cb[k]))
        for what, p, q in (("value", va, vb), ("received value", ra, rb)):
            for n in p:
                if n in q and np.shape(p[n][0]) == np.shape(q[n][0]) and p[n][1] == q[n][1]:
                    env.eq("%s: the same %s" % (n, what), p[n][0], q[n][0])
        flag(env, "the same equations", set(sa) == set(sb))
        for n in sa:
            if n in sb and np.shape(sa[n]) == np.shape(sb[n]):
                env.eq("%s: the same equation" % n, sa[n], sb[n])
    return fn


class Linked(MG.TrajectoryGroup):
    def setup(self):
        a = self.add_subsystem("one", Ph(num_nodes=3))
        b = self.add_subsystem("two", Ph(num_nodes=3))
        c = self.add_subsystem("three", Ph(num_nodes=5))
        self.link_phases(a, b)
        self.link_phases(b, c, states_to_skip=["cool.T"])


class Ph(MG.PhaseGroup):
    def initialize(self):
        self.options.declare("num_nodes", default=3)

    def setup(self):
        self.add_subsystem("dur", om.IndepVarComp("duration", 10.0, units="min"), promotes=["*"])
        self.add_subsystem("acmodel", V.Vehicle(num_nodes=self.options["num_nodes"]), promotes=["*"])


def static_mission():
    """everything added from outside, so that the objects survive the second set-up"""
    g = MG.TrajectoryGroup()
    ph = []
    for k, nn in enumerate((3, 5, 3)):
        q = MG.PhaseGroup(num_nodes=nn)
        q.add_subsystem("dur", om.IndepVarComp("duration", 10.0 + k, units="min"), promotes=["*"])
        q.add_subsystem("acmodel", V.Vehicle(num_nodes=nn), promotes=["*"])
        ph.append(g.add_subsystem("p%d" % k, q))
    g.link_phases(ph[0], ph[1])
    g.link_phases(ph[1], ph[2], states_to_skip=["fuel_used"])
    return g


def static_integrators():
    g = MG.IntegratorGroup(num_nodes=3)
    g.add_subsystem("rates", V.Rates(num_nodes=3, outs={"fuel_flow": V.FLOW, "heating": V.HEAT}), promotes=["*"])
    g.add_subsystem("more", V.Rates(num_nodes=3, outs={"other": dict(units="lb/h", tags=["integrate", "state_name:more", "state_units:lb", "state_val:2.0", "state_upper:9e3"])}))
    c = MG.PhaseGroup(num_nodes=3)
    c.add_subsystem("dur", om.IndepVarComp("duration", 10.0, units="min"), promotes=["*"])
    c.add_subsystem("ac", g, promotes=["*"])
    top = om.Group()
    top.add_subsystem("phase", c, promotes=["*"])
    return top


def toolbox():
    g = om.Group()
    d = DictIndepVarComp({"ac": {"a": {"value": 3.0, "units": "ft"}, "b": {"value": np.array([1.0, 2.0]), "units": "kn"}}})
    d.add_output_from_dict("ac|a")
    d.add_output_from_dict("ac|b")
    g.add_subsystem("data", d, promotes=["*"])
    g.add_subsystem("label", DVLabel([["ac|a", "a_label", 1.0, "m"], ["ac|b", "b_label", np.ones(2), "m/s"]]), promotes=["*"])
    s = AddSubtractComp("total", ["a_label", "x"], vec_size=[1, 3], units="m", scaling_factors=[2, -1])
    s.add_equation("total2", ["b_label", "y"], vec_size=2, units="ft/s")
    g.add_subsystem("sum", s, promotes=["*"])
    e = ElementMultiplyDivideComp("prod", ["total", "z"], vec_size=3, input_units=["ft", "s"], divide=[False, True], scaling_factor=3.0)
    e.add_equation("prod2", ["total2", "w"], vec_size=[2, 1], input_units=["m/s", None])
    g.add_subsystem("mult", e, promotes=["*"])
    i = Integrator(num_nodes=3, method="simpson", diff_units="min", time_setup="duration")
    i.add_integrand("q", rate_name="prod", units="m")
    i.add_integrand("q2", rate_name="rate2", units="kg", zero_start=True)
    i.add_integrand("q3", rate_name="rate3", units="kg", final_only=True)
    g.add_subsystem("integ", i, promotes=["*"])
    return g


def unit_blocks():
    """every block that takes units, given quantities in other units"""
    g = om.Group()
    iv = g.add_subsystem("iv", om.IndepVarComp())
    src = (("a", 2, "ft"), ("b", 1, "km"), ("v", 5, "km"), ("w", 9, "lb"), ("t", 1, "min"), ("T", 3, "degF"), ("U", 3, "degC"), ("d", 1, "h"), ("p", 3, "kW"))
    for n, k, u in src:
        iv.add_output(n, val=np.arange(1.0, k + 1), units=u)
    j = VectorConcatenateComp("ab", ["a", "b"], vec_sizes=[2, 1], units="m")
    j.add_relation("va", ["v2", "b2"], vec_sizes=[5, 1], units="ft")
    s = VectorSplitComp(["v1", "v3"], "v", vec_sizes=[2, 3], units="m")
    s.add_relation(["w1", "w2"], "w", vec_sizes=[4, 5], units="kg")
    for n, c, ins in (("join", j, {"a": "a", "b": "b", "v2": "v", "b2": "b"}), ("split", s, {"v": "v", "w": "w"}),
                      ("top", MaxComp(num_nodes=3, units="K"), {"array": "T"}), ("low", MinComp(num_nodes=5, units="m"), {"array": "v"}),
                      ("line", LinearInterpolator(num_nodes=4, units="ft"), {"start_val": "b", "end_val": "d0"}),
                      ("pick", SelectorComp(num_nodes=3, input_names=["A", "B"], units="K"), {"A": "T", "B": "U"}),
                      ("rate", FirstDerivative(num_intervals=2, quantity_units="m", diff_units="s"), {"q": "v", "dt": "t"}),
                      ("acc", OldIntegrator(num_nodes=3, method="simpson", quantity_units="kJ", diff_units="s", time_setup="duration"), {"dqdt": "p", "duration": "d"}),
                      ("flip", P.FlipVectorComp(num_nodes=3, units="degF", negative=True), {"vec_in": "U"})):
        g.add_subsystem(n, c)
        for i, o in ins.items():
            if o != "d0":
                g.connect("iv." + o, n + "." + i)
    return g


def groups(t):
    n = 3
    nn = lambda cls, **k: (lambda: cls(num_nodes=n, **k))
    SP = {"*SOC*": (0, 1), "*duration": (0, None)}
    yield "toolbox", toolbox, {}
    yield "blocks with units", unit_blocks, {"spec": {"*selector": np.array([1.0, 0.0, 1.0]), "*": (None, None)}}
    yield "integrators added from outside", static_integrators, {}
    yield "phases added from outside", static_mission, {}
    yield "phases linked in setup", Linked, {}
    for c in (thisc for k in ("TurbopropPropulsionSystem", "TwinTurbopropPropulsionSystem", "TwinSeriesHybridElectricPropulsionSystem",
                              "SingleSeriesHybridElectricPropulsionSystem", "SeriesHybridElectricPropulsionSystem",
                              "AllElectricSinglePropulsionSystemWithThermal_Compressible", "AllElectricSinglePropulsionSystemWithThermal_Incompressible",
                              "TwinSeriesHybridElectricThermalPropulsionSystem", "TwinSeriesHybridElectricThermalPropulsionRefrigerated")
              for thisc in [getattr(S, k, None)] if thisc):
        yield "architecture/" + c.__name__, nn(c), {}
    for c in (weights_turboprop.SingleTurboPropEmptyWeight, weights_twin_hybrid.TwinSeriesHybridEmptyWeight, weights_jet_transport.JetTransportEmptyWeight,
              weights_BWB.BWBEmptyWeight, LH2_tank_no_boil_off.LH2TankNoBoilOff, structural.VacuumTankWeight):
        yield "group/" + c.__name__, c, {}
    for c in (drag_BWB.ParasiteDragCoefficient_BWB, drag_jet_transport.ParasiteDragCoefficient_JetTransport):
        yield "group/" + c.__name__, nn(c), {}
    for c in (atmospherics.ComputeAtmosphericProperties, propulsion.SimplePropeller, propulsion.RubberizedTurbofan, motor_cooling.LiquidCooledMotor,
              heat_exchanger.HXGroup, battery_cooling.LiquidCooledBattery, ducts.Inlet, ducts.DuctStation, ducts.OutletNozzle, ducts.ImplicitCompressibleDuct,
              ducts.ImplicitCompressibleDuct_ExternalHX, th.LiquidCooledComp, th.CoolantReservoir, heat_pipe.HeatPipe, heat_pipe.AmmoniaProperties,
              heat_pipe.QMaxHeatPipe, chiller.HeatPumpWithIntegratedCoolantLoop, energy_storage.SOCBattery):
        yield "group/" + c.__name__, nn(c), {}
    for c in ("BasicMission", "FullMissionAnalysis", "MissionWithReserve", "FullMissionWithReserve"):
        cls = getattr(R, c)
        yield "mission/%s" % c, (lambda cls=cls: cls(num_nodes=n, aircraft_model=V.Vehicle)), {}
        if t:
            yield "mission/%s/5" % c, (lambda cls=cls: cls(num_nodes=5, aircraft_model=V.Vehicle)), {}
    for m in ("simplified", "ode"):
        yield "mission/full/" + m, (lambda m=m: R.FullMissionAnalysis(num_nodes=n, aircraft_model=V.Vehicle, transition_method=m)), {}


HEAVY = ("HXGroup", "ImplicitCompressibleDuct", "ImplicitCompressibleDuct_ExternalHX", "HeatPipe", "DuctStation")


def harnesses(tier):
    t = tier != "quick"
    out = []
    for p in ("d01", "d02", "d03", "d04", "d05", "d06"):
        for h in importlib.import_module("props." + p).harnesses("quick"):
            if "/options" in h.name and not t:
                continue
            out.append(Semantic("component/%s" % h.name, component(h), budget=40))
    for name, build, kw in groups(t):
        heavy = name.startswith(("arch", "mission")) or name.split("/")[-1] in HEAVY
        if not heavy or t:
            out.append(Semantic("values/" + name, model(build, ("v", name), opaque=free, **kw), budget=90))
        if heavy:
            out.append(Semantic("wiring/" + name, model(build, ("w", name), opaque=wires, **kw), budget=90))
    return out
