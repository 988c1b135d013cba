import numpy as np
import openmdao.api as om
from openconcept.mission import IntegratorGroup, PhaseGroup, TrajectoryGroup
from openconcept.utilities import Integrator
from sx.core import Semantic
from sx import grp
from .lib import flat, pick

TITLE = "Tagged rates become states over the phase's own time"
BOUNDS = ["integrator groups with up to seven tagged outputs in up to four components (alone, nested in each other, in phases, in trajectories), every combination of the optional tags, "
          "tags given in any of three orders, names that are parts of each other, rates in other units than the state; up to eleven integrators per phase down to three levels, "
          "promoted and not, with own names and units of time; 3, 5 and 11 nodes (thorough also 7, 9), all rates, initial values and positive durations"]
SPEC = {"*duration": (0, None), "*": (None, None)}
BIG = 1e30


class Source(om.ExplicitComponent):
    """arbitrary rates"""

    def initialize(self):
        self.options.declare("num_nodes", default=3)
        self.options.declare("outs")

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_input("z", shape=(nn,))
        for n, kw in self.options["outs"].items():
            self.add_output(n, shape=(nn,), **kw)

    def compute(self, inputs, outputs):
        pass


def tagged(name, units=None, order=0, rate_units=None, **kw):
    """metadata of an output tagged for integration"""
    t = ["integrate", "state_name:" + name]
    if units:
        t.append("state_units:" + units)
    for k, v in kw.items():
        t.append("state_%s:%s" % (k, v))
    if order == 1:
        t = t[::-1]
    elif order == 2:
        t = t[2:] + t[:2]
    return dict(units=rate_units, tags=t)


def flag(env, label, ok):
    env.eq(label, 0 if ok else 1, 0)


def simpson(env, label, q, r, T, tu, q0=None, qf=None):
    """q over the rates r (already in units of q per tu) during T (in tu)"""
    nn = len(q)
    h = T / (nn - 1)
    for i in range(0, nn - 2, 2):
        env.eq("%s integrates its rate from node %d" % (label, i), (q[i + 2] - q[i]) * 3, h * (r[i] + 4 * r[i + 1] + r[i + 2]))
        env.eq("%s integrates its rate to the mid-point after node %d" % (label, i), (q[i + 1] - q[i]) * 12, h * (5 * r[i] + 8 * r[i + 1] - r[i + 2]))
    if q0 is not None:
        env.eq("%s starts at its initial value" % label, q[0], q0)
    if qf is not None:
        env.eq("%s reports its last value" % label, qf, q[-1])


def meta(env, label, m, units, val, lower, upper):
    flag(env, label + ": units", m["units"] == units or units is not None and m["units"] is not None and grp.unit_rat(m["units"], units) == (1, 0))
    flag(env, label + ": default", bool(np.all(np.asarray(m["val"], dtype=float) == val)))
    for k, want in (("lower", lower), ("upper", upper)):
        got = m[k]
        if want is None:
            flag(env, "%s: no %s limit" % (label, k), got is None or bool(np.all(np.abs(np.asarray(got, dtype=float)) >= BIG)))
        else:
            flag(env, "%s: %s limit" % (label, k), got is not None and bool(np.all(np.asarray(got, dtype=float) == want)))


# --------------------------------------------------------------------------- integrator groups
# component -> {output: (state, units, rate units, order, optional tags)}
LAYOUTS = {
    "one": {"a": {"flow": ("fuel", "kg", "kg/s", 0, {})}},
    "limits": {"a": {"flow": ("fuel", "kg", "lb/h", 0, dict(val="1.0", promotes="True", lower="-2.5", upper="1e4")),
                     "heat": ("energy", "kJ", "W", 1, dict(val="-3.5", upper="-1.5"))},
               "b": {"dT": ("T", "K", "K/min", 2, dict(lower="1e-10", promotes="False", val="300.0"))}},
    "many": {"a": {"x_dot": ("x", "m", "ft/s", 0, dict(promotes="True")), "y_dot": ("x_y", "m", "m/s", 0, {}), "z_dot": ("y", "km", "kn", 1, dict(promotes="True"))},
             "b": {"v_dot": ("x_final_v", "m/s", "m/s**2", 2, {}), "w_dot": ("ww", "ft", "ft/min", 1, dict(promotes="True", val="4.0"))},
             "c": {"u_dot": ("xu", None, "1/s", 0, dict(promotes="True"))}, "d": {"s_dot": ("fltcond|s", "mi", "mi/h", 0, dict(promotes="True", lower="0.0")),
                                                                                     "k_dot": ("ac|s", "km", "mi/h", 0, dict(upper="1e3"))}},
    "untagged too": {"a": {"flow": ("fuel", "kg", "kg/s", 0, dict(promotes="True")), "other": None, "more": None}, "b": {"third": None}},
    "several defaults": {"a": {"r1": ("s1", "kg", "kg/s", 0, dict(val="2.0", promotes="True")), "r2": ("s2", "kg", "kg/s", 0, {}), "r3": ("s3", "kg", "kg/s", 0, dict(lower="1.0", promotes="True")),
                               "r4": ("s4", "kg", "kg/s", 0, {})}},
}


def group_of(cls, layout, promote, late):
    """a user's integrator group; promote: the rates are promoted to it; late: components added from outside"""
    def fill(g, nn):
        for c, outs in LAYOUTS[layout].items():
            g.add_subsystem(c, Source(num_nodes=nn, outs={o: dict(units="W") if s is None else tagged(s[0], s[1], s[3], s[2], **s[4]) for o, s in outs.items()}),
                            promotes_outputs=["*"] if promote else [])

    class Own(cls):
        def setup(self):
            if not late:
                fill(self, self.options["num_nodes"])
    return Own, fill


def states_of(layout):
    return [(c, o) + s for c, outs in LAYOUTS[layout].items() for o, s in outs.items() if s is not None]


def integrator_group(layout, nn, promote, late, tu, where):
    Own, fill = group_of(IntegratorGroup, layout, promote, late)
    pre = {"phase": "ph.", "trajectory": "tr.ph.", "group": ""}[where] + "veh."

    def build():
        kw = {} if tu is None else {"time_units": tu}
        v = Own(num_nodes=nn, **kw)
        if late:
            fill(v, nn)
        top = om.Group()
        if where == "group":
            top.add_subsystem("veh", v)
            return top
        ph = PhaseGroup(num_nodes=nn)
        ph.add_subsystem("time", om.IndepVarComp("duration", 10.0, units="h"), promotes=["*"])
        ph.add_subsystem("veh", v)
        if where == "phase":
            top.add_subsystem("ph", ph)
        else:
            tr = TrajectoryGroup()
            tr.add_subsystem("ph", ph)
            top.add_subsystem("tr", tr)
        return top

    def fn(env):
        unit = tu or "s"
        g = env.group(build, key=("ig", layout, nn, promote, late, tu, where), spec=SPEC, opaque=lambda p, c: isinstance(c, Source))
        at = "g." + pre + "ode_integ."
        sts = states_of(layout)
        made = sorted(o[len(at):] for o in g.gm.out_meta if o.startswith(at))
        flag(env, "exactly the tagged states are made", made == sorted(x for s in sts for x in (s[2], s[2] + "_final")))
        dur = "veh.ode_integ.duration" if where == "group" else pre[:-4] + "duration"
        for c, o, s, u, ru, order, opt in sts:
            pub = (pre + s) if opt.get("promotes") == "True" else at[2:] + s
            hid = at[2:] + s if pub != at[2:] + s else pre + s
            flag(env, "%s is reached as declared" % s, g.has(pub) and not (pub.startswith("g.") or hid in g.gm.prom_out.values()))
            if at + s not in g.gm.out_meta or not g.has(pub):
                continue  # already reported
            u_ = u if u is not None else None
            m = g.gm.out_meta[at + s]
            meta(env, s, m, u_ if u_ else m["units"], float(opt.get("val", 0.0)), float(opt["lower"]) if "lower" in opt else None, float(opt["upper"]) if "upper" in opt else None)
            mf = g.gm.out_meta[at + s + "_final"]
            meta(env, s + " at the end", mf, u_ if u_ else mf["units"], float(opt.get("val", 0.0)), float(opt["lower"]) if "lower" in opt else None, float(opt["upper"]) if "upper" in opt else None)
            rate = pre + (o if promote else c + "." + o)
            T = flat(g.val(dur, unit) if where != "group" else g.inval("veh.ode_integ.duration", unit))[0]
            r = flat(g.val(rate, u + "/" + unit if u else "1/" + unit))
            simpson(env, s, flat(g.val(pub, u)), r, T, unit, flat(g.inval(at + s + "_initial", u))[0], flat(g.val(pub + "_final", u))[0])
            flag(env, "%s starts where nothing else says so from its own initial value" % s, (pre + s + "_initial" if opt.get("promotes") == "True" else at[2:] + s + "_initial") in g.gm.prom_in.values())
    return fn


class Inner(IntegratorGroup):
    def setup(self):
        self.add_subsystem("r", Source(num_nodes=self.options["num_nodes"], outs={"flow": tagged("fuel", "kg", 0, "lb/s", promotes="True"), "heat": tagged("energy", "J", 0, "kW")}))


class Outer(IntegratorGroup):
    """integrator groups and plain integrators inside an integrator group"""

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("r", Source(num_nodes=nn, outs={"flow": tagged("fuel", "lb", 0, "kg/h", promotes="True"), "erosion": tagged("wear", "kg", 0, "kg/s")}))
        self.add_subsystem("tank", Inner(num_nodes=nn))
        self.add_subsystem("tank2", Inner(num_nodes=nn, time_units="min"))
        k = self.add_subsystem("own", Integrator(num_nodes=nn, time_setup="duration", method="simpson", diff_units="h"))
        k.add_integrand("n", rate_name="dn", units="mol")
        b = self.add_subsystem("box", om.Group())
        b.add_subsystem("tank", Inner(num_nodes=nn))


def nested(nn):
    def build():
        ph = PhaseGroup(num_nodes=nn)
        ph.add_subsystem("time", om.IndepVarComp("duration", 10.0, units="min"), promotes=["*"])
        ph.add_subsystem("veh", Outer(num_nodes=nn))
        top = om.Group()
        top.add_subsystem("ph", ph)
        return top

    def fn(env):
        g = env.group(build, key=("nest", nn), spec=SPEC, opaque=lambda p, c: isinstance(c, Source))
        T = lambda u: flat(g.val("ph.duration", u))[0]
        for pub, rate, u, tu in (("ph.veh.fuel", "ph.veh.r.flow", "lb", "s"), ("ph.veh.ode_integ.wear", "ph.veh.r.erosion", "kg", "s"),
                                 ("ph.veh.tank.fuel", "ph.veh.tank.r.flow", "kg", "s"), ("ph.veh.tank.ode_integ.energy", "ph.veh.tank.r.heat", "J", "s"),
                                 ("ph.veh.tank2.fuel", "ph.veh.tank2.r.flow", "kg", "min"), ("ph.veh.tank2.ode_integ.energy", "ph.veh.tank2.r.heat", "J", "min"),
                                 ("ph.veh.box.tank.fuel", "ph.veh.box.tank.r.flow", "kg", "s"), ("ph.veh.box.tank.ode_integ.energy", "ph.veh.box.tank.r.heat", "J", "s")):
            simpson(env, pub, flat(g.val(pub, u)), flat(g.val(rate, u + "/" + tu)), T(tu), tu)
        simpson(env, "own integrator", flat(g.val("ph.veh.own.n", "mol")), flat(g.inval("ph.veh.own.dn", "mol/h")), T("h"), "h")
        every(env, g, "ph")
    return fn


# --------------------------------------------------------------------------- sums and scaled copies
HELPERS = {  # helper calls: (kind, sources, promoted sources, keywords)
    "engines": (("mult", ["a.thrust"], [], dict(prom_name="thrust", factor=2.0, units="kN")),
                ("mult", ["a.flow"], [], dict(prom_name="fuel_flow", factor=2.0, units="kg/s", tags=tagged("fuel", "kg", promotes="True")["tags"])),
                ("add", ["a.drag", "b.drag"], [], dict(prom_name="drag", factors=[1.0, -2.0], units="N"))),
    "promoted": (("add", ["a.drag"], ["d", "e"], dict(prom_name="sum", factors=[3.0, 1.0, -2.5], units="lbf")), ("add", ["a.drag", "b.drag"], [], dict(prom_name="plain", units="N")),
                 ("add", [], ["d", "e"], dict(prom_name="pair", units="kN"))),
    "inverse": (("mult", ["a.flow"], [], dict(prom_name="inv", factor=3.0, units=None, divide=[True], input_units=["kg/s"])),
                ("mult", ["a.flow"], [], dict(prom_name="rate", factor=0.5, units="kg/s", input_units="lb/s")), ("mult", ["b.drag"], [], dict(prom_name="neg", factor=-1.0, units="N")),
                ("mult", ["a.thrust"], [], dict(prom_name="climb", factor=4.0, units="kN", tags=tagged("impulse", "kN*h", 0, val="2.0")["tags"]))),
}
HUNITS = {"a.thrust": "N", "a.flow": "lb/h", "a.drag": "N", "b.drag": "lbf", "d": "N", "e": "kN"}


def helpers(case, nn, tu):
    class Vehicle(IntegratorGroup):
        def setup(self):
            nn = self.options["num_nodes"]
            for c in "ab":
                self.add_subsystem(c, Source(num_nodes=nn, outs={k[2:]: dict(units=u) for k, u in HUNITS.items() if k.startswith(c + ".")}))
            self.add_subsystem("c", Source(num_nodes=nn, outs={k: dict(units=HUNITS[k]) for k in "de"}), promotes_outputs=["*"])
            for kind, src, prom, kw in HELPERS[case]:
                if kind == "mult":
                    self.promote_mult(src[0], vec_size=nn, **kw)
                else:
                    self.promote_add(sources=src, promoted_sources=prom, vec_size=nn, **kw)

    def build():
        ph = PhaseGroup(num_nodes=nn)
        ph.add_subsystem("time", om.IndepVarComp("duration", 10.0, units="h"), promotes=["*"])
        ph.add_subsystem("veh", Vehicle(num_nodes=nn, time_units=tu))
        top = om.Group()
        top.add_subsystem("ph", ph)
        return top

    def fn(env):
        g = env.group(build, key=("help", case, nn, tu), spec=dict(SPEC, **({"ph.veh.a.flow": (0, None)} if case == "inverse" else {})), opaque=lambda p, c: isinstance(c, Source))
        for kind, src, prom, kw in HELPERS[case]:
            name, u = kw["prom_name"], kw["units"]
            iu = kw.get("input_units", u)
            iu = iu[0] if isinstance(iu, list) else iu
            got = flat(g.val("ph.veh." + name, u if kw.get("divide") else iu))
            vs = [flat(g.val("ph.veh." + s, iu)) for s in src + prom]
            fs = [kw["factor"]] if kind == "mult" else kw.get("factors", [1.0] * len(vs))
            for k in range(nn):
                if kw.get("divide"):
                    env.eq("%s at node %d" % (name, k), got[k] * vs[0][k], fs[0])
                else:
                    env.eq("%s at node %d" % (name, k), got[k], sum(a * v[k] for a, v in zip(fs, vs)))
            for t in kw.get("tags", ()):
                if t.startswith("state_name:"):
                    s = t.split(":")[1]
                    su = [x.split(":")[1] for x in kw["tags"] if x.startswith("state_units")][0]
                    pub = "ph.veh." + ("" if "state_promotes:True" in kw["tags"] else "ode_integ.") + s
                    simpson(env, s, flat(g.val(pub, su)), flat(g.val("ph.veh." + name, "(%s)/(%s)" % (su, tu))), flat(g.val("ph.duration", tu))[0], tu)
    return fn


# --------------------------------------------------------------------------- phases
def every(env, g, phase, count=None):
    """every integrator of the phase runs over its duration"""
    n = 0
    for c in g.gm.comps:
        if isinstance(c, Integrator) and c.pathname.startswith("g.%s." % phase):
            n += 1
            env.eq("%s runs over the phase's duration" % c.pathname[2:], flat(g.inval(c.pathname + ".duration", "s")), flat(g.val(phase + ".duration", "s")))
    if count is not None:
        flag(env, "all integrators are there", n == count)


def integ(nn, names, **kw):
    c = Integrator(**dict(dict(num_nodes=nn, time_setup="duration", method="simpson", diff_units="s"), **kw))
    for s in names:
        c.add_integrand(s, rate_name="d" + s, units="m")
    return c


class Busy(PhaseGroup):
    """integrators everywhere: direct, promoted, promoting only the time, in nested groups, several under one promoted name"""

    def initialize(self):
        super().initialize()
        self.options.declare("duration_units", default="min")

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("time", om.IndepVarComp("duration", 10.0, units=self.options["duration_units"]), promotes=["*"])
        self.add_subsystem("plain", integ(nn, ["a"]))
        self.add_subsystem("all", integ(nn, ["b"]), promotes=["*"])
        self.add_subsystem("timed", integ(nn, ["c"], diff_units="h"), promotes_inputs=["duration"])
        s = self.add_subsystem("sub", om.Group())
        s.add_subsystem("one", integ(nn, ["d"]), promotes_inputs=["duration"])
        s.add_subsystem("two", integ(nn, ["e", "f"], diff_units="min"), promotes_inputs=["duration"])
        s.add_subsystem("three", integ(nn, ["g"]))
        u = s.add_subsystem("deeper", om.Group())
        u.add_subsystem("four", integ(nn, ["h"]), promotes=["*"])
        u.add_subsystem("five", integ(nn, ["i"]))
        v = self.add_subsystem("same", om.Group(), promotes_inputs=["duration"])
        v.add_subsystem("six", integ(nn, ["j"]), promotes_inputs=["duration"])
        v.add_subsystem("seven", integ(nn, ["k"]))
        w = v.add_subsystem("veh", IntegratorGroup(num_nodes=nn))
        w.add_subsystem("r", Source(num_nodes=nn, outs={"flow": tagged("fuel", "kg", 0, "kg/s", promotes="True")}))


WHERE = {"plain.a": "da", "b": "db", "timed.c": "dc", "sub.one.d": "dd", "sub.two.e": "de", "sub.two.f": "df", "sub.three.g": "dg", "sub.deeper.h": "dh", "sub.deeper.five.i": "di",
         "same.six.j": "dj", "same.seven.k": "dk"}


def busy(nn, du, where):
    def build():
        top = om.Group()
        if where == "two":
            t = TrajectoryGroup()
            a, b = t.add_subsystem("one", Busy(num_nodes=nn, duration_units=du)), t.add_subsystem("two", Busy(num_nodes=nn + 2, duration_units=du))
            t.link_phases(a, b)
            top.add_subsystem("tr", t)
        else:
            top.add_subsystem("ph", Busy(num_nodes=nn, duration_units=du), promotes=["*"] if where == "promoted" else [])
        return top

    def fn(env):
        g = env.group(build, key=("busy", nn, du, where), spec=SPEC, opaque=lambda p, c: isinstance(c, Source))
        if where == "promoted":
            for c in g.gm.comps:
                if isinstance(c, Integrator):
                    env.eq("%s runs over the phase's duration" % c.pathname[2:], flat(g.inval(c.pathname + ".duration", "s")), flat(g.val("duration", "s")))
            phases = [""]
        else:
            phases = ["ph."] if where == "one" else ["tr.one.", "tr.two."]
            for p in phases:
                every(env, g, p[:-1], 11)
        for p in phases:
            abs_ = p or "ph."
            for s, r in WHERE.items():
                own = {"b": "all.", "sub.deeper.h": "sub.deeper.four."}.get(s, s.rsplit(".", 1)[0] + ".")
                simpson(env, p + s, flat(g.val(p + s, "m")), flat(g.inval("g." + abs_ + own + r, "m/s")), flat(g.val(p + "duration", "s"))[0], "s",
                        flat(g.inval("g." + abs_ + own + s.rsplit(".", 1)[-1] + "_initial", "m"))[0], flat(g.val(p + s + "_final", "m"))[0])
    return fn


def harnesses(tier):
    out = []
    for nn in pick(tier, (3,), (3, 5, 11), (3, 5, 7, 9, 11)):
        for l in LAYOUTS:
            for promote in (False, True):
                for late in (False, True):
                    out.append(Semantic("integrator group/%s/%s%s/nn%d" % (l, "promoted" if promote else "own", " late" if late else "", nn), integrator_group(l, nn, promote, late, None, "phase")))
        for tu in ("min", "h"):
            for where in ("group", "phase", "trajectory"):
                out.append(Semantic("integrator group/time in %s/%s/nn%d" % (tu, where, nn), integrator_group("many", nn, False, False, tu, where)))
        for case in HELPERS:
            for tu in ("s", "min"):
                out.append(Semantic("sums and copies/%s/%s/nn%d" % (case, tu, nn), helpers(case, nn, tu)))
        out.append(Semantic("integrator group/nested/nn%d" % nn, nested(nn)))
        for du in ("s", "h"):
            for where in ("one", "two", "promoted"):
                out.append(Semantic("phase/%s/%s/nn%d" % (where, du, nn), busy(nn, du, where)))
    return out
