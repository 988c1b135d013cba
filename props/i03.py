import numpy as np
from openconcept.utilities.math.derivatives import FirstDerivative
from sx.core import Semantic
from .lib import flat, pick
from .i01 import poly, arr

TITLE = "Numerical differentiation is exact for polynomials up to its order"
BOUNDS = ["2nd and 4th order, 1 to 10 intervals (thorough: up to 20) per segment, 1 to 3 segments; all polynomial coefficients, steps and offsets; "
          "several unit pairs"]


def single(order, ni):
    def fn(env):
        nn = 2 * ni + 1
        h = env.comp(FirstDerivative, key=("s", order, ni), build=lambda c: FirstDerivative(order=order, num_intervals=ni))
        dt = env.pos("dt", base=0.7)
        t0 = env.inp("t0", base=0.4)
        co = [env.inp("c%d" % k, base=1.0) for k in range(order + 1)]
        q = arr([poly(co, t0 + i * dt) for i in range(nn)], env)
        o = h(q=q, dt=dt)
        dc = [(k + 1) * c for k, c in enumerate(co[1:])]
        for i in range(nn):
            env.eq("node %d" % i, flat(o["dqdt"])[i], poly(dc, t0 + i * dt))
    return fn


def segs(order, ni, names):
    def fn(env):
        nn = 2 * ni + 1
        h = env.comp(FirstDerivative, key=("m", order, ni, names), build=lambda c: FirstDerivative(
            order=order, num_intervals=ni, segment_names=list(names)))
        one = env.comp(FirstDerivative, key=("s", order, ni), build=lambda c: FirstDerivative(order=order, num_intervals=ni))
        dts = {s + "|dt": env.pos("dt_" + s, base=1.0) for s in names}
        q = env.inp("q", nn * len(names), base=1.0)
        o = np.array(flat(h.run(dict(dts, q=q))["dqdt"]))
        q2 = []
        for i, s in enumerate(names):
            w = one(q=q[i * nn:(i + 1) * nn], dt=dts[s + "|dt"])["dqdt"]
            env.eq("segment %s independent of the others" % s, o[i * nn:(i + 1) * nn], flat(w))
        # and exact for a polynomial of its own in each segment
        for s in names:
            co = [env.inp("c_%s%d" % (s, k), base=1.0) for k in range(order + 1)]
            q2 += [(co, s, i) for i in range(nn)]
        o2 = flat(h.run(dict(dts, q=arr([poly(co, i * dts[s + "|dt"]) for co, s, i in q2], env)))["dqdt"])
        for k, (co, s, i) in enumerate(q2):
            env.eq("exact %s %d" % (s, i), o2[k], poly([(j + 1) * c for j, c in enumerate(co[1:])], i * dts[s + "|dt"]))
    return fn


def united(order, ni, qu, du, names):
    """quantities and steps in any units: the derivative is the same physical number"""
    def fn(env):
        nn, ns = 2 * ni + 1, len(names or ("",))
        opts = dict(order=order, num_intervals=ni, **({"segment_names": list(names)} if names else {}))
        g = env.group(lambda: FirstDerivative(quantity_units=qu[0], diff_units=du[0], **opts), key=("u", order, ni, qu[0], du[0], names),
                      spec={"*dt": (0.1, None), "*": (None, None)})
        h = env.comp(FirstDerivative, key=("u0", order, ni, names), build=lambda c: FirstDerivative(**opts))
        si = lambda n, u: g.val(n, u)
        d = {("%s|dt" % k if k else "dt"): flat(si("%s|dt" % k if k else "dt", du[1]))[0] for k in (names or ("",))}
        want = flat(h.run(dict(d, q=si("q", qu[1])))["dqdt"])
        unit = None if (qu[1], du[1]) == (None, None) else "%s/%s" % (qu[1] or "1", du[1]) if du[1] else qu[1]
        env.eq("derivative in consistent units", flat(si("dqdt", unit)), want)
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    for order, nis in ((2, (1, 2, 3, 5)), (4, (2, 3, 5))):
        for ni in nis + pick(tier, (), (4, 6, 7, 10), (4, 6, 7, 8, 9, 10, 13, 16, 20)):
            out.append(Semantic("exact/order%d/ni%d" % (order, ni), single(order, ni)))
            for names in (("a", "b"), ("x", "y", "z"), ("solo",)):
                if ni <= 3 or t:
                    out.append(Semantic("segments/order%d/ni%d/%s" % (order, ni, "".join(names)), segs(order, ni, names)))
    for order in (2, 4):
        for names in (None, ("a", "b")):
            for qu, du in ((("km", "m"), ("min", "s")), (("lb", "kg"), ("h", "s")), ((None, None), ("min", "s")), (("ft", "m"), (None, None)), ((None, None), (None, None))):
                out.append(Semantic("units/order%d/%s/%s per %s" % (order, "".join(names or "-"), qu[0], du[0]), united(order, 2, qu, du, names)))
    return out
