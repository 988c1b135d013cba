import itertools
import numpy as np
import openmdao.api as om
from openconcept.mission import IntegratorGroup
from openconcept.utilities import AddSubtractComp, ElementMultiplyDivideComp, MaxComp, MinComp
from sx.core import Semantic
from .lib import flat, pick

TITLE = "Vector arithmetic blocks compute exactly the stated expression"
BOUNDS = ["1-7 operands (thorough 12), vector sizes 1-11 (thorough 40), lengths 1-4, every mix of scalar and vector operands, all scaling factors "
          "(symbolic), every divide pattern up to four operands (thorough five), several equations in one component, operand units from a fixed list; "
          "all real operands (divisors positive)"]


def shp(v, length):
    return (v,) if length == 1 else (v, length)


def vs(vec_size, n):
    return list(vec_size) if isinstance(vec_size, (list, tuple)) else [vec_size] * n


def sf(env, name, n):
    """symbolic scaling factors, placed into the component after its set-up"""
    return [env.inp("%s%d" % (name, i), base=(2.0, -1.5, 0.5, 3.0)[i % 4]) for i in range(n)]


def addsub(eqs, how):
    """eqs: list of (operand count, vec_size, length, factors given?)"""
    def build(cls):
        if how == "init":
            n, v, l, f = eqs[0]
            return cls("y0", ["x0_%d" % i for i in range(n)] if n > 1 or l > 1 else "x0_0", vec_size=v, length=l, scaling_factors=[0.37] * n if f else None)
        c = cls()
        for k, (n, v, l, f) in enumerate(eqs):
            c.add_equation("y%d" % k, ["x%d_%d" % (k, i) for i in range(n)], vec_size=v, length=l, scaling_factors=[0.37] * n if f else None)
        return c

    def fn(env):
        h = env.comp(AddSubtractComp, key=("as", how, repr(eqs)), build=build)
        d, fac = {}, {}
        for k, (n, v, l, f) in enumerate(eqs):
            for i, w in enumerate(vs(v, n)):
                d["x%d_%d" % (k, i)] = env.inp("x%d_%d" % (k, i), shp(w, l), base=1.0 + i)
            fac[k] = sf(env, "f%d_" % k, n) if f else [1] * n
        put(h, fac, 5)
        o = h.run(d)
        for k, (n, v, l, f) in enumerate(eqs):
            m = max(vs(v, n))
            for r in range(m):
                for c in range(l):
                    want = 0
                    for i, w in enumerate(vs(v, n)):
                        want = want + fac[k][i] * flat(d["x%d_%d" % (k, i)])[(r if w > 1 else 0) * l + c]
                    env.eq("weighted sum", flat(o["y%d" % k])[r * l + c], want)
    return fn


def put(h, fac, pos):
    """give the set-up component symbolic scaling factors; where it keeps them elsewhere, the numbers it was built with stand"""
    sys = getattr(h.m.comp, "_add_systems", None)
    num = lambda v: isinstance(v, (int, float)) and v == 0.37
    for k in fac:
        f = fac[k]
        t = sys[k] if isinstance(sys, list) and k < len(sys) else None
        old = t[pos] if isinstance(t, (tuple, list)) and len(t) > pos else None
        many = isinstance(f, list)
        if many and all(x == 1 for x in f if isinstance(x, int)) and f and isinstance(f[0], int):
            continue  # no factors given
        if num(old) or (many and isinstance(old, list) and len(old) == len(f) and all(num(v) or not isinstance(v, (int, float)) for v in old)) \
                or type(old) is type(f) and not many:
            t = list(t)
            t[pos] = f
            sys[k] = tuple(t)
        else:
            fac[k] = [0.37] * len(f) if many else 0.37


def multdiv(eqs, how):
    """eqs: list of (vec_size, length, divide pattern or None, operand count)"""
    def build(cls):
        if how == "init":
            v, l, dv, n = eqs[0]
            return cls("y0", ["x0_%d" % i for i in range(n)] if n > 1 or l > 1 else "x0_0", vec_size=v, length=l, divide=dv, scaling_factor=0.37)
        c = cls()
        for k, (v, l, dv, n) in enumerate(eqs):
            c.add_equation("y%d" % k, ["x%d_%d" % (k, i) for i in range(n)], vec_size=v, length=l, divide=dv, scaling_factor=0.37)
        return c

    def fn(env):
        h = env.comp(ElementMultiplyDivideComp, key=("md", how, repr(eqs)), build=build)
        d, fac = {}, {}
        for k, (v, l, dv, n) in enumerate(eqs):
            for i, w in enumerate(vs(v, n)):
                mk = env.pos if dv and dv[i] else env.inp
                d["x%d_%d" % (k, i)] = mk("x%d_%d" % (k, i), shp(w, l), base=1.0 + i)
            fac[k] = env.inp("f%d" % k, base=-2.0)
        put(h, fac, 5)
        o = h.run(d)
        for k, (v, l, dv, n) in enumerate(eqs):
            m = max(vs(v, n))
            for r in range(m):
                for c in range(l):
                    num, den = fac[k], 1
                    for i, w in enumerate(vs(v, n)):
                        x = flat(d["x%d_%d" % (k, i)])[(r if w > 1 else 0) * l + c]
                        if dv and dv[i]:
                            den = den * x
                        else:
                            num = num * x
                    env.eq("scaled product over divisors", flat(o["y%d" % k])[r * l + c] * den, num)
    return fn


def extreme(cls, nn):
    def fn(env):
        x = env.inp("x", (nn,), base=2.0)
        y = flat(env.comp(cls, num_nodes=nn).run({"array": x})["max" if cls is MaxComp else "min"])[0]
        p = 1
        for v in flat(x):
            (env.ge if cls is MaxComp else env.le)("bounds every element", y, v)
            p = p * (y - v)
        env.eq("is one of the elements", p, 0 * p, scale=1.0)
    return fn


# --------------------------------------------------------------------------- with units, as a model uses them
def sum_units(src, unit, read):
    """operands in other compatible units"""
    def build():
        g = om.Group()
        iv = g.add_subsystem("iv", om.IndepVarComp())
        for i, u in enumerate(src):
            iv.add_output("x%d" % i, val=np.ones(2) * (i + 1), units=u)
        c = AddSubtractComp()
        c.add_equation("y", ["x%d" % i for i in range(len(src))], vec_size=2, units=unit, scaling_factors=[1, -1, 2][:len(src)])
        g.add_subsystem("c", c, promotes_outputs=["y"])
        for i in range(len(src)):
            g.connect("iv.x%d" % i, "c.x%d" % i)
        return g

    def fn(env):
        g = env.group(build, key=("su", tuple(src), unit, read), spec={"*": (None, None)})
        w = 0
        for i, f in zip(range(len(src)), (1, -1, 2)):
            w = w + f * flat(g.val("iv.x%d" % i, read))
        env.eq("sum of the quantities", flat(g.val("y", read)), w)
    return fn


def prod_units(src, units, divide, read, factor):
    """factor: the product in the read units of operands each in its own unit of `units`"""
    n = len(units)

    def build():
        g = om.Group()
        iv = g.add_subsystem("iv", om.IndepVarComp())
        for i, u in enumerate(src):
            iv.add_output("x%d" % i, val=np.ones(2) * (i + 1), units=u)
        c = ElementMultiplyDivideComp("y", ["x%d" % i for i in range(n)], vec_size=2, input_units=list(units), divide=divide, scaling_factor=3)
        g.add_subsystem("c", c, promotes_outputs=["y"])
        for i in range(n):
            g.connect("iv.x%d" % i, "c.x%d" % i)
        return g

    def fn(env):
        g = env.group(build, key=("pu", tuple(src), tuple(units), tuple(divide or ()), read), spec={"*": (0, None)})
        num, den = factor * 3, 1
        for i in range(n):
            x = flat(g.val("iv.x%d" % i, units[i]))
            if divide and divide[i]:
                den = den * x
            else:
                num = num * x
        env.eq("product of the quantities", flat(g.val("y", read)) * den, num + 0 * den)
    return fn


class Agg(IntegratorGroup):
    def setup(self):
        nn = self.options["num_nodes"]
        iv = self.add_subsystem("iv", om.IndepVarComp())
        iv.add_output("a", val=np.ones(nn), units="kg")
        iv.add_output("b", val=2 * np.ones(nn), units="lb")
        iv.add_output("w", val=2 * np.ones(nn), units="kW")
        iv.add_output("z", val=3 * np.ones(nn), units="kg")
        self.add_subsystem("p", om.ExecComp("q=2*z", q=dict(shape=(nn,), units="kg"), z=dict(shape=(nn,), units="kg")), promotes_outputs=["q"])
        self.connect("iv.z", "p.z")
        self.promote_add(["iv.a", "iv.b"], "s", promoted_sources=["q"], factors=[1, -2, 0.5], vec_size=nn, units="kg")
        self.promote_mult("iv.b", "m", 4.0, vec_size=nn, units="kg")
        self.promote_mult("iv.w", "m2", 0.5, vec_size=nn, input_units=["W"])
        self.promote_add(["iv.z"], "s2", promoted_sources=["s"], vec_size=nn, units="g")


def promoted(nn):
    def fn(env):
        def build():
            m = om.Group()
            m.add_subsystem("veh", Agg(num_nodes=nn))
            return m
        g = env.group(build, key=("agg", nn), spec={"*duration": "const", "*": (None, None)})
        v = lambda n, u: flat(g.val("veh." + n, u))
        a, b, z = v("iv.a", "kg"), v("iv.b", "kg"), v("iv.z", "kg")
        env.eq("promoted sum", v("s", "kg"), a - 2 * b + z)
        env.eq("promoted product", v("m", "kg"), 4 * b)
        env.eq("promoted product in given input units", v("m2", "W"), 0.5 * v("iv.w", "W"))
        env.eq("sum of a promoted sum", v("s2", "kg"), a - 2 * b + 2 * z)
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    sizes = [(1, 1, 1), (2, 1, 1), (2, 3, 1), (3, 2, 2), (2, [1, 3], 1), (3, [3, 1, 3], 1), (3, [1, 1, 2], 2), (2, [4, 1], 3), (4, [1, 2, 1, 2], 1)]
    if t:
        sizes += [(4, 6, 1), (4, [6, 1, 1, 6], 2), (3, [1, 5, 5], 3), (3, (1, 3, 3), 2), (6, 2, 1), (5, [2, 1, 2, 1, 2], 4), (7, 1, 1), (2, 11, 1), (3, [1, 1, 1], 1),
                  (2, [1, 1], 3), (3, [7, 1, 7], 1), (2, 1, 4), (1, 1, 2)]
    if tier == "deep":
        for n in (2, 3, 4):
            for v in itertools.product((1, 5), repeat=n):
                sizes += [(n, list(v), l) for l in (1, 2, 3) if (n, list(v), l) not in sizes]
        sizes += [(12, 3, 2), (2, 40, 1), (3, [25, 1, 25], 4)]
    for s in sizes:
        for f in (True, False):
            e = tuple(s) + (f,)
            out.append(Semantic("sum/%r/%s" % (s, "factors" if f else "plain"), addsub([e], "add")))
    out.append(Semantic("sum/init", addsub([(2, [1, 3], 1, True)], "init")))
    out.append(Semantic("sum/init one name", addsub([(1, 3, 1, True)], "init")))
    out.append(Semantic("sum/several", addsub([(2, 2, 1, True), (3, [1, 3, 3], 1, False), (2, [1, 2], 2, True)], "add")))
    out.append(Semantic("sum/several more", addsub([(1, 4, 1, True), (4, [1, 2, 1, 2], 3, True), (2, 1, 1, False), (2, [3, 1], 1, True)], "add")))
    pats = [None, [False, False], [False, True], [True, False], [True, True]]
    for v in pick(tier, (1, 3, [1, 2], [2, 1]), (1, 3, [1, 2], [2, 1], (1, 4), 7, [1, 1]), (1, 2, 3, [1, 2], [2, 1], (1, 4), 7, 11, [1, 1], [9, 1], 20)):
        for l in pick(tier, (1, 2), (1, 2, 3), (1, 2, 3, 5)):
            for p in pats:
                out.append(Semantic("product/%r/len%d/%r" % (v, l, p), multdiv([(v, l, p, 2)], "add")))
    for n in pick(tier, (3,), (3, 4), (3, 4, 5)):
        for p in itertools.product((False, True), repeat=n):
            v = [3 if i % 2 else 1 for i in range(n)]
            out.append(Semantic("product/%d/%s" % (n, "".join("/" if x else "*" for x in p)), multdiv([(v, 1, list(p), n)], "add")))
            out.append(Semantic("product/%d/%s/2 columns" % (n, "".join("/" if x else "*" for x in p)), multdiv([(list(reversed(v)), 2, tuple(p), n)], "add")))
    out.append(Semantic("product/init", multdiv([([3, 1], 1, [False, True], 2)], "init")))
    out.append(Semantic("product/init one name", multdiv([(2, 1, [True], 1)], "init")))
    out.append(Semantic("product/several", multdiv([(2, 1, None, 3), ([1, 3], 1, [True, False], 2), (1, 2, [False, True], 2)], "add")))
    for c in (MaxComp, MinComp):
        for n in (1, 2, 3, 4) + pick(tier, (), (6, 7), (6, 7, 9)):
            out.append(Semantic("%s/%d" % (c.__name__, n), extreme(c, n)))
    out.append(Semantic("units/sum", sum_units(["kg", "lb", "g"], "kg", "lb")))
    out.append(Semantic("units/sum power", sum_units(["W", "kW"], "hp", "W")))
    for src, un, dv, read, f in ((["km", "h"], ["m", "s"], [False, True], "m/s", 1), (["ft", "N"], ["m", "N"], None, "J", 1), (["kW", "kg"], ["W", "kg"], [False, True], "W/kg", 1),
                                 (["m/s", "s**2"], ["m/s", "s**2"], [True, True], "1/(m*s)", 1), (["s", None], ["s", None], [True, False], "1/s", 1),
                                 ([None, "lb"], [None, "kg"], None, "kg", 1), ([None, "min"], [None, "s"], [False, True], "1/s", 1),
                                 ([None, "kg", "km/h"], [None, "kg", "m/s"], [True, False, True], "kg*s/m", 1), (["kg", "m", "s"], ["kg", "m", "s"], [False, True, True], "kg/(m*s)", 1)):
        out.append(Semantic("units/product/%s" % "*".join(str(x) for x in src), prod_units(src, un, dv, read, f)))
    for nn in (1, 3):
        out.append(Semantic("promoted sums and products/nn%d" % nn, promoted(nn)))
    return out
