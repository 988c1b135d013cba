import itertools
import numpy as np
import openmdao.api as om
from openconcept.utilities import VectorConcatenateComp, VectorSplitComp, LinearInterpolator, SelectorComp
from sx.core import Semantic
from .lib import flat, pick

TITLE = "Concatenate, split, interpolate and select preserve their data"
BOUNDS = ["all length lists with up to 4 parts of 1-4 rows, 1-3 columns (thorough 5), single and several relations, with and without "
          "units; every selector pattern for up to 3 nodes and 4 inputs (thorough 4 nodes), including selectors that must be rounded; all real values"]


def shp(v, l):
    return (v,) if l == 1 else (v, l)


def build_concat(rels, how):
    def f(cls):
        if how == "init":
            sz, l, u = rels[0]
            return cls("y0", ["x0_%d" % i for i in range(len(sz))], vec_sizes=sz, length=l, units=u)
        c = cls()
        for k, (sz, l, u) in enumerate(rels):
            c.add_relation("y%d" % k, ["x%d_%d" % (k, i) for i in range(len(sz))], vec_sizes=sz, length=l, units=u)
        return c
    return f


def build_split(rels, how):
    def f(cls):
        if how == "init":
            sz, l, u = rels[0]
            return cls(["x0_%d" % i for i in range(len(sz))], "y0", vec_sizes=sz, length=l, units=u)
        c = cls()
        for k, (sz, l, u) in enumerate(rels):
            c.add_relation(["x%d_%d" % (k, i) for i in range(len(sz))], "y%d" % k, vec_sizes=sz, length=l, units=u)
        return c
    return f


def round_trip(rels, how):
    def fn(env):
        cc = env.comp(VectorConcatenateComp, key=("cat", how, repr(rels)), build=build_concat(rels, how))
        sp = env.comp(VectorSplitComp, key=("spl", how, repr(rels)), build=build_split(rels, how))
        d = {}
        for k, (sz, l, u) in enumerate(rels):
            for i, w in enumerate(sz):
                d["x%d_%d" % (k, i)] = env.inp("x%d_%d" % (k, i), shp(w, l), base=1.0 + i)
        y = {k: np.array(v) for k, v in cc.run(d).items()}
        for k, (sz, l, u) in enumerate(rels):
            pos = 0
            for i, w in enumerate(sz):
                x = flat(d["x%d_%d" % (k, i)])
                env.eq("concatenation keeps the order", flat(y["y%d" % k])[pos:pos + w * l], x)
                pos += w * l
            env.eq("concatenation adds nothing", len(flat(y["y%d" % k])), pos)
        z = sp.run(y)
        for n, x in d.items():
            env.eq("split returns the parts", flat(z[n]), flat(x))
    return fn


def units(src, unit, read):
    def build():
        g = om.Group()
        iv = g.add_subsystem("iv", om.IndepVarComp())
        iv.add_output("a", val=np.ones(2), units=src[0])
        iv.add_output("b", val=2 * np.ones(3), units=src[1])
        c = VectorConcatenateComp("y", ["a", "b"], vec_sizes=[2, 3], units=unit)
        s = VectorSplitComp(["p", "q", "r"], "y", vec_sizes=[1, 1, 3], units=unit)
        g.add_subsystem("c", c)
        g.add_subsystem("s", s)
        g.connect("iv.a", "c.a")
        g.connect("iv.b", "c.b")
        g.connect("c.y", "s.y")
        return g

    def fn(env):
        g = env.group(build, key=("cu", src, unit, read), spec={"*": (None, None)})
        v = lambda n: flat(g.val(n, read))
        env.eq("concatenated quantities", v("c.y"), np.concatenate([v("iv.a"), v("iv.b")]))
        env.eq("split quantities", np.concatenate([v("s.p"), v("s.q"), v("s.r")]), np.concatenate([v("iv.a"), v("iv.b")]))
    return fn


def interp(nn):
    def fn(env):
        a, b = env.inp("a", (1,), base=1.0), env.inp("b", (1,), base=5.0)
        v = flat(env.comp(LinearInterpolator, num_nodes=nn).run({"start_val": a, "end_val": b})["vec"])
        env.eq("one value per node", len(v), nn)
        env.eq("starts at the start value", v[0], flat(a)[0])
        if nn > 1:
            env.eq("ends at the end value", v[-1], flat(b)[0])
            env.eq("equal steps", (v[1:] - v[:-1]) * (nn - 1), flat(b - a)[0] * np.ones(nn - 1))
    return fn


def interp_units(nn):
    def build():
        g = om.Group()
        iv = g.add_subsystem("iv", om.IndepVarComp())
        iv.add_output("a", val=1.0, units="ft")
        iv.add_output("b", val=2.0, units="km")
        g.add_subsystem("li", LinearInterpolator(num_nodes=nn, units="m"))
        g.connect("iv.a", "li.start_val")
        g.connect("iv.b", "li.end_val")
        return g

    def fn(env):
        g = env.group(build, key=("iu", nn), spec={"*": (None, None)})
        v, a, b = flat(g.val("li.vec", "m")), flat(g.val("iv.a", "m"))[0], flat(g.val("iv.b", "m"))[0]
        w = np.linspace(0, 1, nn)
        env.eq("linear between the quantities", v, [a + (b - a) * x for x in w])
    return fn


def select(nn, ni, sel, u):
    names = ["in%d" % k for k in range(ni)]

    def fn(env):
        d = {n: env.inp(n, (nn,), base=1.0 + k) for k, n in enumerate(names)}
        s = np.array(sel, dtype=float)
        o = env.comp(SelectorComp, num_nodes=nn, input_names=names, units=u).run(dict(selector=s, **d))["result"]
        for i in range(nn):
            env.eq("chosen input", flat(o)[i], flat(d[names[int(np.around(s[i]))]])[i])
    return fn


def select_near(ni, k):
    """any selector value that rounds to input k"""
    names = ["in%d" % j for j in range(ni)]

    def fn(env):
        d = {n: env.inp(n, (2,), base=1.0 + j) for j, n in enumerate(names)}
        s = env.inp("s", (2,), max(k - 0.49, -0.49), k + 0.49, base=k + 0.1)
        o = env.comp(SelectorComp, num_nodes=2, input_names=names).run(dict(selector=s, **d))["result"]
        env.eq("input the selector rounds to", o, d[names[k]])
    return fn


def select_sym(nn, ni):
    """any selector value that rounds into the range"""
    names = ["in%d" % k for k in range(ni)]

    def fn(env):
        d = {n: env.inp(n, (nn,), base=1.0 + k) for k, n in enumerate(names)}
        s = env.inp("s", (nn,), -0.49, ni - 0.51, base=0.2)
        o = env.comp(SelectorComp, num_nodes=nn, input_names=names).run(dict(selector=s, **d))["result"]
        for i in range(nn):
            p = 1
            for n in names:
                p = p * (flat(o)[i] - flat(d[n])[i])
            env.eq("result is one of the inputs", p, 0 * p, scale=1.0)
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    lists = [[1], [3], [1, 1], [2, 3], [3, 2], [1, 2, 3], [4, 1, 2], [2, 2, 2, 1]]
    if t:
        lists += [list(p) for n in (2, 3, 4) for p in itertools.product(pick(tier, (), (1, 2, 4), (1, 2, 3, 4)), repeat=n) if list(p) not in lists]
    for s in lists:
        for l in pick(tier, (1, 2, 3), (1, 2, 3), (1, 2, 3, 5)):
            out.append(Semantic("round trip/%r/%d columns" % (s, l), round_trip([(s, l, None)], "add")))
    out.append(Semantic("round trip/init", round_trip([([2, 1, 3], 1, "m")], "init")))
    out.append(Semantic("round trip/init 2 columns", round_trip([([2, 1], 2, "m")], "init")))
    out.append(Semantic("round trip/several", round_trip([([2, 1], 1, "m"), ([1, 3], 2, None), ([2, 2, 1], 1, "kg")], "add")))
    for src, u, r in ((("ft", "m"), "m", "km"), (("degC", "K"), "K", "degF"), (("kg", "lb"), "g", "kg")):
        out.append(Semantic("units/%s" % "-".join(src), units(src, u, r)))
    for nn in (2, 3, 4, 5) + pick(tier, (), (7, 11), (7, 8, 11, 20)):
        out.append(Semantic("interpolate/%d" % nn, interp(nn)))
        out.append(Semantic("interpolate/units/%d" % nn, interp_units(nn)))
    for nn in (1, 2, 3) + pick(tier, (), (), (4,)):
        for ni in (1, 2, 3) + ((4,) if t else ()):
            for sel in itertools.product(range(ni), repeat=nn):
                out.append(Semantic("select/%d of %d/%s" % (nn, ni, "".join(map(str, sel))), select(nn, ni, sel, None)))
    for sel in ([4, 0, 3, 3, 1], [2, 2, 2, 2, 0, 1], [1, 1, 0, 4, 4]):
        out.append(Semantic("select/long/%s" % "".join(map(str, sel)), select(len(sel), 5, sel, "m")))
    for sel in ([0.4, 1.6, 2.2], [-0.3, 0.51, 1.49], [1.2, 0.9, 2.0]):
        out.append(Semantic("select/rounded/%r" % sel, select(3, 3, sel, "kg")))
    for ni in (1, 2, 3):
        for k in range(ni):
            out.append(Semantic("select/near/%d of %d" % (k, ni), select_near(ni, k)))
        out.append(Semantic("select/any selector/%d" % ni, select_sym(1, ni)))
    return out
