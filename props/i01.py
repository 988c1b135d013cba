import numpy as np
from openconcept.utilities.math.integrals import Integrator, OldIntegrator
from sx.core import Semantic
from .lib import counted, flat, pick, total

TITLE = "Time integration is exact for polynomial rates and linear in the rates"
EXPLANATION = ("The real integrators run on rates that are polynomials of time with symbolic coefficients (or entirely free "
               "rates), symbolic step, initial value; the solver decides equality with the analytic integral.")
BOUNDS = ["num_nodes 3..13 (thorough ..31); quadratic rates at every node, cubic rates at the even nodes for Simpson; "
          "1-3 segments"]
R = (None, None)


def ipoly(co, t):
    """integral of sum co_k t^k from 0 to t"""
    s = 0
    for k, c in enumerate(co):
        s = s + c * t ** (k + 1) / (k + 1)
    return s


def poly(co, t):
    s = 0
    for k, c in enumerate(co):
        s = s + c * t ** k
    return s


def arr(xs, env):
    return np.array(xs, dtype=float if env.real else object)


def new(nn, method, ts, states=1, **kw):
    def make(_=None):
        c = Integrator(num_nodes=nn, method=method, time_setup=ts, diff_units="s")
        for i in range(states):
            c.add_integrand("q%d" % i, **kw)
        return c
    return make


def timing(env, ts, nn):
    """(inputs, step)"""
    if ts == "dt":
        dt = env.pos("dt", base=2.0)
        return {"dt": dt}, dt
    if ts == "duration":
        T = env.pos("T", base=7.0)
        return {"duration": T}, T / max(nn - 1, 1)
    t0 = env.inp("t0", base=3.0)
    T = env.pos("T", base=7.0)
    return {"t_initial": t0, "t_final": t0 + T}, T / max(nn - 1, 1)


def exact(nn, method, ts, deg):
    def fn(env):
        h = env.comp(Integrator, key=("ex", nn, method, ts), build=new(nn, method, ts))
        tin, dt = timing(env, ts, nn)
        co = [env.inp("c%d" % k, base=1.0) for k in range(deg + 1)]
        q0 = env.inp("q0", base=0.5)
        r = arr([poly(co, i * dt) for i in range(nn)], env)
        o = h(q0_rate=r, q0_initial=q0, **tin)
        q = flat(o["q0"])
        nodes = range(nn) if deg <= 2 else range(0, nn, 2)
        for i in nodes:
            env.eq("q at node %d is the exact integral" % i, q[i], q0 + ipoly(co, i * dt))
        env.eq("final value", o["q0_final"], q0 + ipoly(co, (nn - 1) * dt))
    return fn


def exact_options(nn, method, ts, zero, final, free=True):
    def fn(env):
        h = env.comp(Integrator, key=("eo", nn, method, ts, zero, final, free),
                     build=new(nn, method, ts, 2, zero_start=zero, final_only=final, **({} if free else dict(lower=0.0, upper=1.0, val=np.linspace(0.1, 0.9, nn), start_val=0.7))))
        tin, dt = timing(env, ts, nn)
        ins = dict(tin)
        want = []
        for s in range(2):
            co = [env.inp("c%d_%d" % (s, k), base=1.0) for k in range(3)]
            ins["q%d_rate" % s] = arr([poly(co, i * dt) for i in range(nn)], env)
            q0 = 0
            if not zero:
                q0 = ins["q%d_initial" % s] = env.inp("q0_%d" % s, base=0.5)
            want.append((co, q0))
        o = h.run(ins)
        for s, (co, q0) in enumerate(want):
            env.eq("final %d" % s, o["q%d_final" % s], q0 + ipoly(co, (nn - 1) * dt))
            if not final:
                for i in range(nn):
                    env.eq("state %d node %d" % (s, i), flat(o["q%d" % s])[i], q0 + ipoly(co, i * dt))
    return fn


def linear(nn, method, ts):
    def fn(env):
        h = env.comp(Integrator, key=("ex", nn, method, ts), build=new(nn, method, ts))
        tin, dt = timing(env, ts, nn)
        a, b = env.inp("alpha", base=2.0), env.inp("beta", base=-1.0)
        x, y = env.inp("x", nn, base=1.0), env.inp("y", nn, base=1.0)
        x0, y0 = env.inp("x0", base=1.0), env.inp("y0", base=1.0)
        I1 = h(q0_rate=x, q0_initial=x0, **tin)
        I1 = {k: v.copy() for k, v in I1.items()}
        I2 = h(q0_rate=y, q0_initial=y0, **tin)
        I2 = {k: v.copy() for k, v in I2.items()}
        I = h(q0_rate=a * x + b * y, q0_initial=a * x0 + b * y0, **tin)
        for k in ("q0", "q0_final"):
            env.eq("linear " + k, I[k], a * I1[k] + b * I2[k])
    return fn


def old(nn, method, ts, deg, final, zero):
    def fn(env):
        h = env.comp(OldIntegrator, key=("old", nn, method, ts, final, zero), build=lambda c: OldIntegrator(
            num_nodes=nn, method=method, time_setup=ts, diff_units="s", quantity_units="m", final_only=final, zero_start=zero))
        tin, dt = timing(env, ts, nn)
        co = [env.inp("c%d" % k, base=1.0) for k in range(deg + 1)]
        q0 = 0
        if not zero:
            q0 = tin["q_initial"] = env.inp("q0", base=0.5)
        o = h(dqdt=arr([poly(co, i * dt) for i in range(nn)], env), **tin)
        env.eq("final value", o["q_final"], q0 + ipoly(co, (nn - 1) * dt))
        if not final:
            for i in (range(nn) if deg <= 2 else range(0, nn, 2)):
                env.eq("q at node %d" % i, flat(o["q"])[i], q0 + ipoly(co, i * dt))
    return fn


def segments(nn, method, names, count):
    """the rate in each segment is its own quadratic of the time since the segment's start"""
    def fn(env):
        h = env.comp(OldIntegrator, key=("seg", nn, method, tuple(names), tuple(count) if count is not None else None),
                     build=lambda c: OldIntegrator(num_nodes=nn, method=method, segment_names=list(names),
                                                   segments_to_count=None if count is None else list(count)))
        ins, r, want = {}, [], []
        q0 = ins["q_initial"] = env.inp("q0", base=0.5)
        at = q0
        for s in names:
            dt = ins[s + "|dt"] = env.pos("dt_" + s, base=2.0)
            co = [env.inp("c_%s%d" % (s, k), base=1.0) for k in range(3)]
            r += [poly(co, i * dt) for i in range(nn)]
            on = count is None or s in count
            want += [at + (ipoly(co, i * dt) if on else 0) for i in range(nn)]
            at = want[-1]
        o = h.run(dict(ins, dqdt=arr(r, env)))
        for i, w in enumerate(want):
            env.eq("q[%d]" % i, flat(o["q"])[i], w)
        env.eq("final value", o["q_final"], at)
    return fn


def harnesses(tier):
    t = tier != "quick"
    out = []
    for m in ("simpson", "bdf3"):
        for nn in ((3, 5, 7) if m == "simpson" else (5, 7)) + pick(tier, (), (9, 11, 13), (9, 11, 13, 15, 21, 31)):
            for ts in ("dt", "duration", "bounds"):
                degs = (2, 3) if m == "simpson" else (2,)
                for d in degs:
                    out.append(Semantic("exact/%s/%s/nn%d/deg%d" % (m, ts, nn, d), exact(nn, m, ts, d)))
                    if nn <= 5 or t:
                        out.append(Semantic("old/%s/%s/nn%d/deg%d" % (m, ts, nn, d), old(nn, m, ts, d, False, False)))
                out.append(Semantic("linear/%s/%s/nn%d" % (m, ts, nn), linear(nn, m, ts)))
                if nn == 5 or t:
                    for z in (False, True):
                        for f in (False, True):
                            out.append(Semantic("options/%s/%s/nn%d/zero%d/final%d" % (m, ts, nn, z, f),
                                                exact_options(nn, m, ts, z, f)))
                            if nn == 5:
                                out.append(Semantic("bounded/%s/%s/nn%d/zero%d/final%d" % (m, ts, nn, z, f),
                                                    exact_options(nn, m, ts, z, f, False)))
                            out.append(Semantic("old-options/%s/%s/nn%d/zero%d/final%d" % (m, ts, nn, z, f),
                                                old(nn, m, ts, 2, f, z)))
        nn = 3 if m == "simpson" else 5
        for names, cnt in counted():
            out.append(Semantic("segments/%s/%s/%s" % (m, "".join(names), "all" if cnt is None else "".join(cnt) or "none"),
                                segments(nn, m, names, cnt)))
            if t:
                out.append(Semantic("segments/%s/%s/%s/long" % (m, "".join(names), "all" if cnt is None else "".join(cnt) or "none"),
                                    segments(nn + 4, m, names, cnt)))
    return out
