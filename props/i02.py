import numpy as np
import openmdao.api as om
from openconcept.utilities.math.integrals import Integrator, OldIntegrator
from sx.core import Semantic
from .lib import counted, flat, pick

TITLE = "Integrator time modes agree and states chain across segments"
EXPLANATION = ("The real integrators run with entirely free rates; results of the three time modes are compared with each other, and "
               "initial values, segment joints, final values and unit scaling are decided as identities.")


def make(nn, m, ts, units=None, diff="s", **kw):
    def f(_=None):
        c = Integrator(num_nodes=nn, method=m, time_setup=ts, diff_units=diff)
        c.add_integrand("q", units=units, **kw)
        return c
    return f


def modes(nn, m, final):
    def fn(env):
        r = env.inp("r", nn, base=1.0)
        q0 = env.inp("q0", base=0.3)
        t0 = env.inp("t0", base=1.5)
        T = env.inp("T", base=4.0)
        res = {}
        for ts, tin in (("dt", {"dt": T / max(nn - 1, 1)}), ("duration", {"duration": T}), ("bounds", {"t_initial": t0, "t_final": t0 + T})):
            if nn == 1 and ts == "bounds":
                continue
            h = env.comp(Integrator, key=("m", nn, m, ts, final), build=make(nn, m, ts, final_only=final))
            o = h(q_rate=r, q_initial=q0, **tin)
            res[ts] = {k: np.array(v) for k, v in o.items()}
            env.eq("final %s" % ts, o["q_final"], res["dt"]["q_final"])
            if not final:
                env.eq("states %s" % ts, o["q"], res["dt"]["q"])
                env.eq("start %s" % ts, flat(o["q"])[0], q0)
                env.eq("last %s" % ts, flat(o["q"])[-1], flat(o["q_final"])[0])
    return fn


def oldmodes(nn, m):
    def fn(env):
        r = env.inp("r", nn, base=1.0)
        q0 = env.inp("q0", base=0.3)
        t0 = env.inp("t0", base=1.5)
        T = env.inp("T", base=4.0)
        ref = env.comp(Integrator, key=("m", nn, m, "dt", False), build=make(nn, m, "dt"))(
            q_rate=r, q_initial=q0, dt=T / max(nn - 1, 1))
        ref = {k: np.array(v) for k, v in ref.items()}
        for ts, tin in (("dt", {"dt": T / max(nn - 1, 1)}), ("duration", {"duration": T}), ("bounds", {"t_initial": t0, "t_final": t0 + T})):
            if nn == 1 and ts == "bounds":
                continue
            h = env.comp(OldIntegrator, key=("om", nn, m, ts), build=lambda c: OldIntegrator(num_nodes=nn, method=m, time_setup=ts))
            o = h(dqdt=r, q_initial=q0, **tin)
            env.eq("q %s" % ts, o["q"], ref["q"])
            env.eq("q_final %s" % ts, o["q_final"], ref["q_final"])
            env.eq("start %s" % ts, flat(o["q"])[0], q0)
    return fn


def chain(nn, m, names, count):
    """segments with free rates; compared with one-segment integrations joined by hand"""
    def fn(env):
        n = len(names)
        h = env.comp(OldIntegrator, key=("chain", nn, m, names, count), build=lambda c: OldIntegrator(
            num_nodes=nn, method=m, segment_names=list(names), segments_to_count=None if count is None else list(count)))
        one = env.comp(Integrator, key=("m", nn, m, "dt", False), build=make(nn, m, "dt"))
        r = env.inp("r", nn * n, base=1.0)
        q0 = env.inp("q0", base=0.3)
        dts = {s + "|dt": env.inp("dt_" + s, base=1.0) for s in names}
        o = h.run(dict(dts, dqdt=r, q_initial=q0))
        q = np.array(flat(o["q"]))
        env.eq("start", q[0], q0)
        env.eq("final", flat(o["q_final"])[0], q[-1])
        at = q0
        for i, s in enumerate(names):
            if i:
                env.eq("joint before %s" % s, q[i * nn], q[i * nn - 1])
            if count is None or s in count:
                w = np.array(flat(one(q_rate=r[i * nn:(i + 1) * nn], q_initial=at, dt=dts[s + "|dt"])["q"]))
            else:
                w = np.array([at] * nn)
            env.eq("segment %s" % s, q[i * nn:(i + 1) * nn], w)
            at = w[-1]
    return fn


MIX = [dict(name="a"), dict(name="b", zero_start=True, rate_name="bdot", end_name="b_end"), dict(name="c", final_only=True, start_name="c0"),
       dict(name="d", zero_start=True, final_only=True), dict(name="e", lower=-1.0, upper=2.0, val=0.5, start_val=1.0)]


def mixed(nn, m, ts, order):
    """states of one integrator do not influence one another, whatever their options and order; bounds are advice to a solver only"""
    def make_mixed(_=None):
        c = Integrator(num_nodes=nn, method=m, time_setup=ts, diff_units="s")
        for i in order:
            c.add_integrand(**MIX[i])
        return c

    def fn(env):
        T, q0 = env.inp("T", base=4.0), {i: env.inp("q0%d" % i, base=1.3 + i) for i in order}
        r = {i: env.inp("r%d" % i, nn, base=1.0 + i) for i in order}
        tin = {"dt": {"dt": T / max(nn - 1, 1)}, "duration": {"duration": T}, "bounds": {"t_initial": env.inp("t0", base=1.0), "t_final": env.inp("t0", base=1.0) + T}}[ts]
        d = dict(tin)
        for i in order:
            s = MIX[i]
            d[s.get("rate_name", s["name"] + "_rate")] = r[i]
            if not s.get("zero_start"):
                d[s.get("start_name", s["name"] + "_initial")] = q0[i]
        o = {k: np.array(v) for k, v in env.comp(Integrator, key=("mix", nn, m, ts, order), build=make_mixed).run(d).items()}
        one = env.comp(Integrator, key=("m", nn, m, "dt", False), build=make(nn, m, "dt"))
        for i in order:
            s = MIX[i]
            w = np.array(flat(one(q_rate=r[i], q_initial=0.0 if s.get("zero_start") else q0[i], dt=T / max(nn - 1, 1))["q"]))
            if not s.get("final_only"):
                env.eq("state %s" % s["name"], o[s["name"]], w)
            env.eq("final value of %s" % s["name"], o[s.get("end_name", s["name"] + "_final")], w[-1])
    return fn


def oldopts(nn, m, zero, final):
    def fn(env):
        r, q0, T = env.inp("r", nn, base=1.0), env.inp("q0", base=0.3), env.inp("T", base=4.0)
        o = env.comp(OldIntegrator, key=("oo", nn, m, zero, final), build=lambda c: OldIntegrator(
            num_nodes=nn, method=m, time_setup="duration", zero_start=zero, final_only=final)).run(dict({"dqdt": r, "duration": T}, **({} if zero else {"q_initial": q0})))
        o = {k: np.array(v) for k, v in o.items()}
        w = np.array(flat(env.comp(Integrator, key=("m", nn, m, "duration", False), build=make(nn, m, "duration"))(
            q_rate=r, q_initial=0.0 if zero else q0, duration=T)["q"]))
        if not final:
            env.eq("states", o["q"], w)
        env.eq("final", o["q_final"], w[-1])
    return fn


UNITS = {"kg@min": ("kg", None, "min", "kg/s", "s", "kg", 1.0), "NM@h": ("NM", None, "h", "m/s", "s", "m", 1.0),
         "rate-m/s@min": (None, "m/s", "min", "m/s", "s", "m", 1.0), "rate-W@h": (None, "kW", "h", "W", "s", "J", 1.0),
         "bare@s": (None, None, "s", "1/s", "s", None, 1.0), "bare@min": (None, None, "min", "1/s", "s", None, 1.0),
         "bare@h": (None, None, "h", "1/min", "min", None, 1.0), "lb@min": ("lb", None, "min", "kg/s", "s", "kg", 1.0),
         "kg@-": ("lb", None, None, "kg", None, "kg", 1.0), "rate-m@-": (None, "km", None, "m", None, "m", 1.0), "bare@-": (None, None, None, None, None, None, 1.0),
         "rate-lb/h@s": (None, "lb/h", "s", "kg/s", "s", "kg", 1.0)}


def units(case, nn, m, ts="duration", old=False):
    """an interval described in other units than the integrator's own: the real connection graph converts"""
    qu, ru, du, rin, tin, qout, _ = UNITS[case]
    times = {"dt": ["dt"], "duration": ["duration"], "bounds": ["t_initial", "t_final"]}[ts]

    def build():
        g = om.Group()
        iv = g.add_subsystem("iv", om.IndepVarComp(), promotes=["*"])
        iv.add_output("rate", val=np.ones(nn), units=rin)
        for k, n in enumerate(times):
            iv.add_output("T%d" % k, val=2.0 + k, units=tin)
        iv.add_output("start", val=1.0, units=qout)
        if old:
            c = OldIntegrator(num_nodes=nn, method=m, time_setup=ts, diff_units=du, quantity_units=qu, rate_units=ru)
        else:
            c = Integrator(num_nodes=nn, method=m, time_setup=ts, diff_units=du)
            c.add_integrand("q", units=qu, rate_units=ru)
        g.add_subsystem("integ", c)
        g.connect("rate", "integ.dqdt" if old else "integ.q_rate")
        for k, n in enumerate(times):
            g.connect("T%d" % k, "integ." + n)
        g.connect("start", "integ.q_initial")
        return g

    def fn(env):
        g = env.group(build, key=("units", case, nn, m, ts, old), spec={"rate": (None, None), "start": (None, None), "T*": (None, None)})
        one = env.comp(Integrator, key=("m", nn, m, "duration", False), build=make(nn, m, "duration"))
        T = g.val("T0") * (nn - 1) if ts == "dt" else g.val("T0") if ts == "duration" else g.val("T1") - g.val("T0")
        o = one(q_rate=g.val("rate"), q_initial=g.val("start"), duration=T)
        env.eq("state in base units", g.val("integ.q", qout), o["q"])
        env.eq("final in base units", g.val("integ.q_final", qout), o["q_final"])
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    for m in ("simpson", "bdf3"):
        for nn in (1,) + ((3, 5, 7) if m == "simpson" else (5, 7)) + pick(tier, (), (9, 11), (9, 11, 13, 15, 21)):
            for f in (False, True):
                out.append(Semantic("modes/%s/nn%d/final%d" % (m, nn, f), modes(nn, m, f)))
            out.append(Semantic("old-modes/%s/nn%d" % (m, nn), oldmodes(nn, m)))
        for nn in ((3, 5) if m == "simpson" else (5,)) + pick(tier, (), (7, 11), (7, 9, 11, 15)):
            for names, cnt in counted() if nn < 6 else (("ab", None), ("abc", None), ("abc", ("a", "c")), ("ab", ("b",))):
                names = tuple(names)
                out.append(Semantic("chain/%s/nn%d/%s/%s" % (m, nn, "".join(names), "all" if cnt is None else "".join(cnt) or "none"),
                                    chain(nn, m, names, cnt)))
        for nn in (1, 5) + pick(tier, (), (9,), (9, 11, 15)):
            for order in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 3, 0, 4, 1)):
                for ts in ("dt", "duration", "bounds")[:2 if nn == 1 else 3]:
                    out.append(Semantic("mixed/%s/nn%d/%s/%s" % (m, nn, "".join(map(str, order)), ts), mixed(nn, m, ts, order)))
            for zero in (False, True):
                for final in (False, True):
                    out.append(Semantic("old-options/%s/nn%d/zero%d/final%d" % (m, nn, zero, final), oldopts(nn, m, zero, final)))
        for case in UNITS:
            for ts in ("dt", "duration", "bounds"):
                # OldIntegrator declares the option rate_units but does not implement it (a TODO in the code): nothing is claimed for it
                for o in (False, True) if UNITS[case][1] is None else (False,):
                    out.append(Semantic("units/%s%s/%s/%s" % ("old/" if o else "", m, case, ts), units(case, 5, m, ts, o)))
    return out
