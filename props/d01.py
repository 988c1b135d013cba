from openconcept.utilities.math.add_subtract_comp import AddSubtractComp
from openconcept.utilities.math.multiply_divide_comp import ElementMultiplyDivideComp
from openconcept.utilities.math.combine_split_comp import VectorConcatenateComp, VectorSplitComp
from openconcept.utilities.math.max_min_comp import MaxComp, MinComp
from openconcept.utilities.math.integrals import Integrator, OldIntegrator
from openconcept.utilities.math.derivatives import FirstDerivative
from openconcept.utilities.linearinterp import LinearInterpolator
from openconcept.utilities.selector import SelectorComp
from openconcept.utilities.dvlabel import DVLabel
import itertools

import numpy as np
from .dreg import AutoDeriv, R
from .lib import counted, pick

TITLE = "Math utilities supply exact derivatives"
ALL = {"*": R}


def add(vec_size=3, length=1, sf=None, n=3, init=False, units="m", names=None, more=False):
    names = names or ["a", "b", "c", "d"][:n]
    if init:
        return AddSubtractComp("out", names, vec_size=vec_size, length=length, scaling_factors=sf, units=units)
    c = AddSubtractComp()
    c.add_equation("out", names, vec_size=vec_size, length=length, scaling_factors=sf, units=units)
    if more:
        c.add_equation("out2", ["p", "q"], vec_size=[1, 2], scaling_factors=[2.5, -0.5])
    return c


def mul(vec_size=3, length=1, sf=1, n=3, divide=None, units=None, names=None, more=False, init=False):
    names = names or ["a", "b", "c", "d"][:n]
    if init:
        return ElementMultiplyDivideComp("out", names, vec_size=vec_size, length=length, scaling_factor=sf, divide=divide,
                                         input_units=units)
    c = ElementMultiplyDivideComp()
    c.add_equation("out", names, vec_size=vec_size, length=length, scaling_factor=sf, divide=divide, input_units=units)
    if more:
        c.add_equation("out2", ["p", "q"], vec_size=[2, 1], divide=[True, False], scaling_factor=-3.0)
    return c


def integ(ts="duration", method="simpson", nn=5, states=1, **kw):
    c = Integrator(num_nodes=nn, method=method, time_setup=ts, diff_units="s")
    for i in range(states):
        k = dict(kw)
        if i == 1:
            k = dict(rate_name="other", start_name="s2", end_name="e2", rate_units="kg/s", start_val=1.0)
        c.add_integrand("q%d" % i, **k)
    return c


def specs(tier):
    t = tier != "quick"
    for v, ln, sf, n in ((3, 1, None, 2), (1, 1, [2.0, -1.0], 2), (3, 2, [1.5, -1, 0], 3), ([1, 3, 3], 1, [1, -2, 3], 3),
                         ([3, 1], 2, None, 2), ([1, 4], 3, [0.5, 2], 2), ([1, 1], 2, None, 2), (2, 1, None, 1)):
        yield "AddSubtract/%s/len%d/n%d" % (v, ln, n), lambda v=v, ln=ln, sf=sf, n=n: add(v, ln, sf, n), {}
    for n in (1, 2, 3):
        for v in itertools.product((1, 3), repeat=n):
            for ln in (1, 2):
                sf = [2.0, -1.0, 0.5][:n]
                yield "AddSubtract/rows %s/len%d" % (list(v), ln), lambda v=v, ln=ln, sf=sf, n=n: add(list(v), ln, sf, n), {}
                for d in itertools.product((False, True), repeat=n):
                    yield ("MultiplyDivide/rows %s/len%d/%s" % (list(v), ln, "".join("d" if x else "m" for x in d)),
                           lambda v=v, ln=ln, n=n, d=d: mul(list(v), ln, -1.5, n, list(d)), {})
    yield "AddSubtract/init", lambda: add([1, 3], 1, [2, 3], 2, init=True), {}
    yield "AddSubtract/two", lambda: add(3, 1, None, 3, more=True), {}
    yield "AddSubtract/single-name", lambda: add(2, 1, [-4.0], names="solo"), {}
    for v, ln, sf, n, d in ((3, 1, 1, 2, None), (1, 1, -2.0, 2, [True, False]), (3, 2, 0.25, 3, [False, True, False]),
                            ([1, 3, 3], 1, 3.0, 3, [True, True, False]), ([3, 1], 2, 1, 2, [False, True]),
                            ([1, 4], 3, 2.0, 2, [False, True]), ([1, 1], 2, 1, 2, None), (2, 1, 5.0, 1, [True]),
                            (2, 1, 1.5, 4, [True, False, True, False]), (2, 1, 1.0, 3, [True, True, True])):
        yield ("MultiplyDivide/%s/len%d/%s" % (v, ln, "".join("d" if x else "m" for x in (d or [0] * n)) + ("s%g" % sf)),
               lambda v=v, ln=ln, sf=sf, n=n, d=d: mul(v, ln, sf, n, d), {})
    yield "MultiplyDivide/units", lambda: mul(3, 1, 2.0, 3, [False, True, False], ["m", "s", "kg"]), {}
    yield "MultiplyDivide/two", lambda: mul(3, 1, 1, 2, more=True), {}
    yield "MultiplyDivide/init", lambda: mul([1, 3], 1, 2.0, 2, [True, False], init=True), {}
    yield "MultiplyDivide/single-name", lambda: mul(2, 1, -4.0, names="solo"), {}
    for vs, ln in ([([2, 3], 1), ([1, 2, 1], 1), ([2, 2], 3), ([1, 4], 2), ([5], 1)]
                   + [(list(v), ln) for n in (2, 3) for v in itertools.product((1, 2, 3), repeat=n) for ln in (1, 2) if (list(v), ln) != ([1, 2, 1], 1) and (list(v), ln) != ([2, 3], 1)]):
        nm = ["a", "b", "c"][:len(vs)]
        yield "Concat/%s/%d" % (vs, ln), lambda vs=vs, ln=ln, nm=nm: VectorConcatenateComp("out", nm, vec_sizes=vs, length=ln), {}
        yield "Split/%s/%d" % (vs, ln), lambda vs=vs, ln=ln, nm=nm: VectorSplitComp(nm, "inp", vec_sizes=vs, length=ln), {}

    def two_concat():
        c = VectorConcatenateComp()
        c.add_relation("o1", ["a", "b"], vec_sizes=[1, 2])
        c.add_relation("o2", ["c", "d"], vec_sizes=[2, 1], length=2)
        return c

    def two_split():
        c = VectorSplitComp()
        c.add_relation(["a", "b"], "i1", vec_sizes=[1, 2])
        c.add_relation(["c", "d"], "i2", vec_sizes=[2, 1], length=2)
        return c

    def unit_concat():
        c = VectorConcatenateComp("o0", ["x", "y"], vec_sizes=[2, 1], units="ft", lower=-3.0, upper=[4.0, 5.0, 6.0], ref=2.0, desc="d")
        c.add_relation("o1", ["a", "b"], vec_sizes=[1, 2], units="m", val=2.5)
        c.add_relation("o2", ["c", "d"], vec_sizes=[2, 1], length=2, units="kg", ref=10.0, ref0=1.0)
        return c

    def unit_split():
        c = VectorSplitComp(["x", "y"], "i0", vec_sizes=[2, 1], units="ft", lower=-3.0, upper=4.0, ref=2.0, desc="d")
        c.add_relation(["a", "b"], "i1", vec_sizes=[1, 2], units="m", val=2.5)
        c.add_relation(["c", "d"], "i2", vec_sizes=[2, 1], length=2, units="kg", ref=10.0, ref0=1.0)
        return c

    def unit_sum():
        c = AddSubtractComp("o0", ["x", "y"], vec_size=2, units="ft", lower=-3.0, upper=4.0, ref=2.0, desc="d")
        c.add_equation("o1", ["a", "b"], vec_size=2, units="m", val=2.5, scaling_factors=[1, -1])
        c.add_equation("o2", ["c", "d"], vec_size=[1, 2], length=2, units="kg", ref=10.0, ref0=1.0)
        return c

    def unit_product():
        c = ElementMultiplyDivideComp("o0", ["x", "y"], vec_size=2, input_units=["ft", "kg"], lower=-3.0, upper=4.0, ref=2.0, desc="d")
        c.add_equation("o1", ["a", "b"], vec_size=2, input_units=["m", None], val=2.5, divide=[False, True])
        c.add_equation("o2", ["c", "d"], vec_size=[1, 2], length=2, input_units=["kg", "s"], divide=[True, False], ref=10.0, ref0=1.0)
        return c

    yield "Concat/units", unit_concat, {}
    yield "Split/units", unit_split, {}
    yield "AddSubtract/units", unit_sum, {}
    yield "MultiplyDivide/several with units", unit_product, {}
    yield "MaxComp/units", lambda: MaxComp(num_nodes=2, units="degC"), {}
    yield "MinComp/units", lambda: MinComp(num_nodes=2, units="degC"), {}
    yield "Concat/two", two_concat, {}
    yield "Split/two", two_split, {}
    for nn in (2, 3, 6):
        yield "LinearInterpolator/%d" % nn, lambda nn=nn: LinearInterpolator(num_nodes=nn, units="m"), {}
    for nn in (1, 2, 3):
        yield "MaxComp/%d" % nn, lambda nn=nn: MaxComp(num_nodes=nn), {}
        yield "MinComp/%d" % nn, lambda nn=nn: MinComp(num_nodes=nn), {}
    for sel in ([0], [1, 0], [2, 0, 1], [1, 1, 1], [0.6, 1.4, 0.2]):
        yield ("Selector/%s" % sel, lambda sel=sel: SelectorComp(num_nodes=len(sel), input_names=["A", "B", "C"], units="K"),
               dict(fixed={"selector": sel}))
    yield "Selector/any", lambda: SelectorComp(num_nodes=2, input_names=["A", "B", "C"]), dict(
        dom={"selector": (-0.5, 2.5), "*": R})
    for nm in (["only"], ["A", "B"], ["p", "q", "r", "s"]):
        yield "Selector/%d names" % len(nm), lambda nm=nm: SelectorComp(num_nodes=2, input_names=nm, units="K"), dict(dom={"selector": (-0.5, len(nm) - 0.5), "*": R})
    yield "DVLabel", lambda: DVLabel([["a", "b", np.array([1.0, 2.0]), "m"], ["c", "d", 3.0, None]]), {}
    nns = pick(tier, (1, 3, 5), (1, 3, 5, 7, 9, 11), (1, 3, 5, 7, 9, 11, 15))
    for ts in ("dt", "duration", "bounds"):
        for m in ("simpson", "bdf3"):
            for nn in nns:
                if (m == "bdf3" and nn == 3) or (ts == "bounds" and nn == 1):
                    continue
                yield "Integrator/%s/%s/%d" % (ts, m, nn), lambda ts=ts, m=m, nn=nn: integ(ts, m, nn), {}
                yield "OldIntegrator/%s/%s/%d" % (ts, m, nn), lambda ts=ts, m=m, nn=nn: OldIntegrator(
                    num_nodes=nn, method=m, time_setup=ts, diff_units="s", quantity_units="m"), {}
            for rate in ([0, 0, 0, 1.5, 2], [0, 0, 0, 0, 0], [1, 0, 0, 0, 0]):
                tag = "-".join("%g" % r for r in rate)
                yield "Integrator/%s/%s/rate%s" % (ts, m, tag), lambda ts=ts, m=m: integ(ts, m, 5, units="m"), dict(
                    fixed={"q0_rate": rate})
                yield "OldIntegrator/%s/%s/rate%s" % (ts, m, tag), lambda ts=ts, m=m: OldIntegrator(
                    num_nodes=5, method=m, time_setup=ts), dict(fixed={"dqdt": rate})
            yield "Integrator/%s/%s/zero_start" % (ts, m), lambda ts=ts, m=m: integ(ts, m, 5, zero_start=True), {}
            yield "Integrator/%s/%s/final_only" % (ts, m), lambda ts=ts, m=m: integ(ts, m, 5, 2, final_only=True), {}
            yield "Integrator/%s/%s/two" % (ts, m), lambda ts=ts, m=m: integ(ts, m, 5, 2), {}
            yield "OldIntegrator/%s/%s/final_only" % (ts, m), lambda ts=ts, m=m: OldIntegrator(
                num_nodes=5, method=m, time_setup=ts, final_only=True, zero_start=True), {}
    for m in ("simpson", "bdf3"):
        nn = 3 if m == "simpson" else 5
        for segs, cnt in counted():
            segs, cnt = list(segs), None if cnt is None else list(cnt)
            yield "OldIntegrator/%s/%s/count%s" % (m, "".join(segs), cnt), lambda m=m, segs=segs, cnt=cnt, nn=nn: OldIntegrator(
                num_nodes=nn, method=m, segment_names=segs, segments_to_count=cnt), {}
        yield "OldIntegrator/%s/segments/zero-rate" % m, lambda m=m, nn=nn: OldIntegrator(
            num_nodes=nn, method=m, segment_names=["a", "b"]), dict(fixed={"dqdt": [0] * nn + [0] * (nn - 1) + [1.0]})
    for order, ni in ((2, 1), (2, 2), (2, 3), (4, 2), (4, 3)):
        yield "FirstDerivative/%d/%d" % (order, ni), lambda order=order, ni=ni: FirstDerivative(
            order=order, num_intervals=ni, quantity_units="m", diff_units="s"), {}
        yield "FirstDerivative/%d/%d/segments" % (order, ni), lambda order=order, ni=ni: FirstDerivative(
            order=order, num_intervals=ni, segment_names=["a", "b"]), {}


def harnesses(tier):
    out = []
    for name, make, kw in specs(tier):
        dom = {"*dt": (0, None), "duration": (0, None), "*": R}
        out.append(AutoDeriv(name, make, **dict(dict(dom=dom, bounds="listed shapes and options"), **kw)))
    return out
