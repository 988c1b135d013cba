import contextlib
import numbers
import numpy as np
import openmdao.api as om
from openmdao.core.component import Component
from openconcept.utilities import DictIndepVarComp, DymosDesignParamsFromDict, DVLabel
from sx.core import Semantic
from sx import expr as X, npx, omx, grp
from .lib import flat

numbers.Number.register(X.Sym)

TITLE = "Aircraft data reach the model unchanged"
BOUNDS = ["data dictionaries up to 4 levels deep; numbers, numpy numbers and arrays of shape (1,), (3,), (2, 3), (2, 1, 2); units " +
          "None, m, ft, ft**2, kg, lb, kn, hp, degC, degF, psi, inch; up to 6 entries taken from one dictionary; all values of every entry",
          "labels: 1 to 3 variables per label, scalar and array defaults, all values, connected and unconnected"]


@contextlib.contextmanager
def symbolic_defaults(rec):
    """lets component variables have symbolic default values: the real call gets a placeholder, rec the value"""
    def wrap(cls, meth):
        orig = getattr(cls, meth)

        def f(self, name, val=1.0, *a, **kw):
            arr = npx.lift_arr(val) if isinstance(val, X.Sym) or (isinstance(val, np.ndarray) and val.dtype == object) else None
            if arr is not None:
                rec[(id(self), meth[4:], name)] = arr
                val = np.ones(np.shape(arr)) if np.shape(arr) else 1.0
            with npx.unpatched():
                return orig(self, name, val, *a, **kw)
        return cls, meth, orig, f
    todo = [wrap(om.IndepVarComp, "add_output"), wrap(Component, "add_input"), wrap(om.ExplicitComponent, "add_output")]
    for cls, meth, orig, f in todo:
        setattr(cls, meth, f)
    try:
        yield
    finally:
        for cls, meth, orig, f in todo:
            setattr(cls, meth, orig)


def conv(v, a, b):
    """value in units a -> units b"""
    f, o = grp.unit_rat(a, b)
    if isinstance(v, np.ndarray) and v.dtype != object:
        return (v + float(o)) * float(f)
    return grp.convert(npx.lift_arr(v), a, b)


class Model:
    """real set-up of one component; symbolic mode executes its compute on the recorded defaults"""

    def __init__(self, env, make):
        self.env, self.rec = env, {}
        if env.real:
            self.comp = make()
        else:
            with symbolic_defaults(self.rec):
                self.comp = make()
        p = self.p = om.Problem(reports=False)
        with (contextlib.nullcontext() if env.real else npx.unpatched()), omx.quiet():
            p.model.add_subsystem("c", self.comp, promotes=["*"])
            if env.real:
                p.setup()
                p.run_model()
            else:
                with symbolic_defaults(self.rec):
                    p.setup()
                p.final_setup()
        self.names = sorted(k[2:] for k in self.comp._var_abs2meta["output"])

    def meta(self, io, n):
        return self.comp._var_abs2meta[io].get("c." + n)

    def default(self, io, n):
        m = self.meta(io, n)
        v = self.rec.get((id(self.comp), io, n))
        if v is None:
            v = npx.lift_arr(m["val"])
        return np.broadcast_to(v, m["shape"]) if np.shape(v) != m["shape"] else v

    def outputs(self):
        if self.env.real:
            return {n: np.array(self.p.get_val(n), dtype=float) for n in self.names}
        self.env.funcs.add("%s.%s" % (type(self.comp).__module__, type(self.comp).__name__))
        if isinstance(self.comp, om.IndepVarComp):
            return {n: self.default("output", n) for n in self.names}
        ins = omx.SymVec({k[2:]: m["shape"] for k, m in self.comp._var_abs2meta["input"].items()})
        for n in ins.shapes:
            ins[n] = self.default("input", n)
        out = omx.SymVec({n: self.meta("output", n)["shape"] for n in self.names})
        for n, shp in out.shapes.items():
            dict.__setitem__(out, n, npx.empty(shp, object))
        self.comp.compute(ins, out)
        return {n: out[n] for n in self.names}


def same(env, label, got, unit, want, wunit):
    """got [unit] is the value want [wunit], element by element"""
    want = np.asarray(want, dtype=float) if env.real else npx.lift_arr(want)
    if np.shape(want) == ():
        want = want.reshape((1,))
    if tuple(np.shape(got)) != tuple(np.shape(want)):
        env.eq("%s: keeps its shape" % label, 0, 1)
        return
    env.eq("%s: keeps its shape" % label, 0, 0)
    if (unit is None) != (wunit is None):
        env.eq("%s: keeps its units" % label, 0, 1)
        return
    if unit is not None:
        try:
            got = conv(got, unit, wunit)
        except Exception:
            env.eq("%s: units of the same kind" % label, 0, 1)
            return
    env.eq("%s: arrives unchanged" % label, got, want)


KINDS = {"number": (), "one element": (1,), "vector": (3,), "matrix": (2, 3), "block": (2, 1, 2)}
UNITS = (None, "m", "ft", "ft**2", "kg", "lb", "kn", "hp", "degC", "degF", "psi", "inch")


def put(data, path, leaf):
    for k in path[:-1]:
        data = data.setdefault(k, {})
    data.setdefault(path[-1], {}).update(leaf)


def leafval(env, name, kind):
    v = env.inp(name, KINDS[kind], base=2.5)
    return v


def entry(path, kind, unit, sep="|", isint=False, extra=None):
    def fn(env):
        v = leafval(env, "v", kind)
        if isint and env.real:
            v = np.array(v)[()]
        data = {}
        other = env.inp("other", (), base=7.0)
        leaf = {"value": v}
        if unit is not None:
            leaf["units"] = unit
        leaf.update(extra or {})
        put(data, path, leaf)
        # a neighbour on every level that must not be picked up instead
        for k in range(len(path)):
            put(data, list(path[:k]) + ["neighbour"], {"value": other, "units": "s"})
        put(data, list(path) + ["below"], {"value": other, "units": "s"})
        nm = sep.join(path)
        want = np.array(v) if env.real else npx.lift_arr(v).copy()

        def make():
            c = DictIndepVarComp(data)
            c.add_output_from_dict(nm) if sep == "|" else c.add_output_from_dict(nm, separator=sep)
            return c
        m = Model(env, make)
        env.eq("one output per entry", len(m.names), 1)
        env.eq("named after its place in the tree", 0 if m.names == [nm] else 1, 0)
        if m.names != [nm]:
            return
        same(env, "value", m.outputs()[nm], m.meta("output", nm)["units"], want, unit)
        d = data
        for k in path:
            d = d[k]
        same(env, "dictionary is left alone", np.reshape(d["value"], np.shape(want) or (1,)) if env.real else npx.lift_arr(d["value"]).reshape(np.shape(want) or (1,)),
             d.get("units"), want, unit)
    return fn


MANY = [(("ac", "geom", "S_ref"), "number", "ft**2"), (("ac", "geom", "wing", "S_ref"), "number", "m**2"), (("ac", "geom", "wing", "c4sweep"), "one element", "deg"),
        (("ac", "aero", "polar", "CD0_TO"), "number", None), (("ac", "aero", "twist"), "vector", "deg"), (("S_ref",), "matrix", "inch")]


def many(env):
    data, want = {}, {}
    for k, (path, kind, unit) in enumerate(MANY):
        v = leafval(env, "v%d" % k, kind)
        put(data, path, dict({"value": v}, **({"units": unit} if unit else {})))
        want["|".join(path)] = (v, unit)

    def make():
        c = DictIndepVarComp(data)
        c.add_output("own", val=3.0, units="m")
        for n in want:
            c.add_output_from_dict(n)
        return c
    m = Model(env, make)
    env.eq("nothing is dropped", 0 if m.names == sorted(list(want) + ["own"]) else 1, 0)
    o = m.outputs()
    for n, (v, u) in want.items():
        if n in o:
            same(env, n, o[n], m.meta("output", n)["units"], v, u)
    same(env, "own", o["own"], m.meta("output", "own")["units"], np.array([3.0]), "m")


def twice(env):
    """two components fed from one dictionary, one value used under two names"""
    v = leafval(env, "v", "vector")
    leaf = {"value": v, "units": "ft"}
    data = {"a": leaf, "b": {"c": leaf}}
    for names in (("a", "b|c"), ("b|c",), ("a",)):
        def make():
            c = DictIndepVarComp(data)
            for n in names:
                c.add_output_from_dict(n)
            return c
        m = Model(env, make)
        o = m.outputs()
        for n in names:
            same(env, "%s of %s" % (n, "+".join(names)), o[n], m.meta("output", n)["units"], v, "ft")


BAD = {"no such branch": "ac|nope|x", "no such leaf": "ac|geom|nope", "a branch is not a value": "ac|geom", "units only": "ac|geom|noval", "empty name": ""}


def missing(case, how):
    def fn(env):
        v = env.inp("v", (), base=1.0)
        data = {"ac": {"geom": {"S": {"value": v, "units": "m"}, "noval": {"units": "m"}}}}
        rec, raised = {}, 0
        try:
            with symbolic_defaults(rec):
                (DictIndepVarComp(data) if how == "component" else DymosDesignParamsFromDict(data, Traj(2))).add_output_from_dict(BAD[case])
        except KeyError:
            raised = 1
        env.eq("reported", raised, 1)
        env.eq("the rest still arrives", v, v)
    return fn


class Traj:
    """records what a Dymos trajectory is told"""

    def __init__(self, n):
        self._phases = {"phase%d" % k: object() for k in range(n)}
        self.calls = []

    def add_design_parameter(self, name, **kw):
        self.calls.append((name, kw))


def dymos(path, kind, unit, n, opt, dyn):
    def fn(env):
        v = leafval(env, "v", kind)
        data = {}
        put(data, path, dict({"value": v}, **({"units": unit} if unit else {})))
        put(data, list(path[:-1]) + ["neighbour"], {"value": 7.0, "units": "s"})
        t = Traj(n)
        nm = "|".join(path)
        env.funcs.add("openconcept.utilities.dict_indepvarcomp.DymosDesignParamsFromDict")
        kw = {}
        if opt:
            kw["opt"] = True
        if dyn:
            kw["dynamic"] = True
        DymosDesignParamsFromDict(data, t).add_output_from_dict(nm, **kw)
        env.eq("one parameter", len(t.calls), 1)
        if len(t.calls) != 1:
            return
        name, k = t.calls[0]
        env.eq("named after its place in the tree", 0 if name == nm else 1, 0)
        env.eq("reaches every phase", 0 if k.get("targets") == {q: [nm] for q in t._phases} else 1, 0)
        env.eq("optimised when asked", int(bool(k.get("opt"))), int(opt))
        env.eq("dynamic when asked", int(bool(k.get("dynamic"))), int(dyn))
        same(env, "value", np.asarray(k["val"]) if env.real else npx.lift_arr(k["val"]), k.get("units"), v, unit)
    return fn


def label(vars_, connected):
    """vars_: [(in, out, kind, units)]"""
    def fn(env):
        vals = [leafval(env, "d%d" % k, t[2]) for k, t in enumerate(vars_)]
        want = {t[1]: (v, t[3]) for t, v in zip(vars_, vals)}

        def make():
            return DVLabel([[t[0], t[1], v, t[3]] for t, v in zip(vars_, vals)])
        m = Model(env, make)
        env.eq("one output per label", 0 if m.names == sorted(want) else 1, 0)
        o = m.outputs()
        for n, (v, u) in want.items():
            if n in o:
                same(env, n, o[n], m.meta("output", n)["units"], v, u)
        for t, v in zip(vars_, vals):
            mi, mo = m.meta("input", t[0]), m.meta("output", t[1])
            env.eq("%s: input and output are the same kind of variable" % t[1],
                   0 if mi and mo and mi["units"] == mo["units"] and mi["shape"] == mo["shape"] else 1, 0)
        if connected:
            h = env.comp(DVLabel, build=lambda c: c([[t[0], t[1], np.ones(KINDS[t[2]]) if KINDS[t[2]] else 1.0, t[3]] for t in vars_]),
                         key=repr(vars_))
            x = {t[0]: env.inp("x%d" % k, KINDS[t[2]] or (1,), base=1.5) for k, t in enumerate(vars_)}
            r = h.run(x)
            for t in vars_:
                same(env, "%s connected" % t[1], np.array(r[t[1]]) if env.real else r[t[1]], h.m.outputs[t[1]]["units"],
                     conv(x[t[0]], h.m.inputs[t[0]]["units"], t[3]) if t[3] else x[t[0]], t[3])
    return fn


def chain(kind, du, lu):
    """dictionary -> label -> consumer, each in its own units"""
    def fn(env):
        class Use(om.ExplicitComponent):
            def setup(self):
                self.add_input("x", val=np.zeros(KINDS[kind] or 1), units=lu)
                self.add_output("y", val=np.zeros(KINDS[kind] or 1), units=lu)

            def compute(self, i, o):
                o["y"] = i["x"]
        data = {"ac": {"d": {"value": np.full(KINDS[kind], 2.0) if KINDS[kind] else 2.0, "units": du}}}

        def build():
            g = om.Group()
            c = DictIndepVarComp(data)
            c.add_output_from_dict("ac|d")
            g.add_subsystem("data", c, promotes_outputs=["*"])
            g.add_subsystem("label", DVLabel([["ac|d", "ac|d_label", np.ones(KINDS[kind]) if KINDS[kind] else 1.0, lu]]), promotes=["*"])
            g.add_subsystem("use", Use(), promotes_inputs=[("x", "ac|d_label")])
            return g
        Use.__module__ = "props.u03"
        g = env.group(build, key=("chain", kind, du, lu), spec={"*": (None, None)})
        env.eq("the consumer sees the data", g.inval("use.x", du), g.val("ac|d", du))
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    paths = (("a",), ("ac", "S"), ("ac", "geom", "S_ref"), ("ac", "geom", "wing", "S_ref"))
    for k, (kind, unit) in enumerate([(k, u) for u in UNITS for k in KINDS] if t else
                                     [("number", u) for u in UNITS] + [("vector", u) for u in UNITS[:6]] + [(k, u) for k in ("one element", "matrix", "block") for u in (None, "ft", "degF")]):
        for path in (paths if t else (paths[k % 4],)):
            out.append(Semantic("entry/%s/%s/%s" % ("|".join(path), kind, unit), entry(path, kind, unit)))
    for sep in (":", "."):
        if sep == ":":
            out.append(Semantic("separator " + sep, entry(("ac", "S"), "number", "ft", sep)))
    out.append(Semantic("descriptive keys beside the value", entry(("ac", "S"), "vector", "ft", extra={"desc": "x", "note": 3, "val": 9.0, "scale": 2.0})))
    out.append(Semantic("many entries", many))
    out.append(Semantic("one value under two names", twice))
    for c in BAD:
        for how in ("component", "trajectory"):
            out.append(Semantic("missing/%s/%s" % (c, how), missing(c, how)))
    for n in (0, 1, 3):
        for kind, unit in (("number", None), ("number", "ft"), ("vector", "degC"), ("matrix", "lb")):
            out.append(Semantic("trajectory/%d phases/%s/%s" % (n, kind, unit), dymos(paths[(n + len(kind)) % 4], kind, unit, n, n == 1, n == 3)))
    for u in UNITS:
        out.append(Semantic("label/number/%s" % u, label([("x", "y", "number", u)], True)))
    for kind in ("one element", "vector", "matrix", "block"):
        for u in (None, "ft") + (UNITS[4:] if t else ()):
            out.append(Semantic("label/%s/%s" % (kind, u), label([("x", "y", kind, u)], True)))
    out.append(Semantic("label/three", label([("a", "b", "number", "ft"), ("c", "d", "vector", None), ("e|f", "g|h", "matrix", "degC")], True)))
    out.append(Semantic("label/swap", label([("a", "y", "number", "ft"), ("b", "x", "number", "m")], True)))
    for kind in ("number", "vector"):
        for du, lu in (("ft", "m"), ("degF", "K"), ("hp", "kW"), ("kn", "ft/s")):
            out.append(Semantic("chain/%s/%s to %s" % (kind, du, lu), chain(kind, du, lu)))
    return out
