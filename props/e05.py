import importlib
import os
import numpy as np
import openmdao.api as om
from sx.core import Semantic
from sx import expr as X, npx
from .lib import pick

C, N = (importlib.import_module("openconcept.propulsion." + m) for m in ("cfm56", "N3"))

TITLE = "Engine decks are fitted to their own tables"
BOUNDS = ["the three engine decks with tables of any contents in the shape of the supplied ones; every entry any positive number, in turn 3 (thorough 5) entries of each fuel or thrust table "
          "any number at all (absent points are not positive); 1 and 3 nodes; the interpolation itself is OpenMDAO's and is not encoded"]
ROOT = os.path.dirname(C.__file__) + "/empirical_data/"


def key(x):
    return X.lift(x) if isinstance(x, X.Sym) else float(x)


CURRENT = []


def load(path, *a, **kw):
    return CURRENT[-1].load(path)


class tables:
    """the tables read from disk replaced by arbitrary ones; records what the surrogates are trained with"""

    def __init__(self, env, free):
        self.env, self.free, self.data, self.ins, self.outs = env, free, {}, {}, {}

    def load(self, path, *a, **kw):
        name = os.path.normpath(str(path))[len(os.path.normpath(ROOT)) + 1:]
        if name not in self.data:
            shape = self.real(path).shape
            a = self.env.inp(name, shape, 0, None, base=1.0 + 0.01 * len(self.data))
            fr = self.free.get(name, ())
            a = np.array(a) if self.env.real else npx.lift_arr(a)
            for n, idx in enumerate(fr):
                a[idx] = self.env.inp("free %s %d" % (name, n), base=0.5)
            self.data[name] = a
        return self.data[name].copy()

    def __enter__(self):
        self.real = np.load
        np.load = load
        CURRENT.append(self)
        M = om.MetaModelUnStructuredComp
        self.old = {n: getattr(M, n) for n in ("add_input", "add_output")}

        def wrap(n, orig, rec):
            def f(this, name, val=1.0, training_data=None, *a, **kw):
                rec[name] = (np.asarray(training_data), kw)
                return orig(this, name, val, None, *a, **kw)
            return f
        M.add_input, M.add_output = wrap("add_input", self.old["add_input"], self.ins), wrap("add_output", self.old["add_output"], self.outs)
        return self

    def __exit__(self, *a):
        np.load = self.real
        CURRENT.pop()
        for n, f in self.old.items():
            setattr(om.MetaModelUnStructuredComp, n, f)


def flag(env, label, ok):
    env.eq(label, 0 if ok else 1, 0)


def cfm(t):
    th, wf, t4 = (t.data["cfm56/cfm56%s.npy" % n] for n in ("thrust", "wf", "t4"))
    for i in range(8):
        for j in range(9):
            for k in range(9):
                alt, mach, thr = 35000.0 - 5000.0 * i, 0.8 - 0.1 * j, 1.0 - 0.1 * k
                if i == 7 and j < 3:
                    continue  # no data: fast at sea level
                if th[i, j, k] > 0:
                    yield (i, j, k), {"throttle": thr, "fltcond|h": alt, "fltcond|M": mach}, {"thrust": th[i, j, k], "fuel_flow": wf[i, j, k], "T4": t4[i, j, k]}


def n3(root, powers):
    def rows(t):
        g = {n: t.data[root + "/power_off/%s.npy" % n] for n in ("alt", "mach", "throttle", "thrust")}
        for sub, kw in powers:
            wf, sm = t.data[root + "/%s/wf.npy" % sub], t.data[root + "/%s/SMW.npy" % sub]
            for at in np.ndindex(8, 7, 11):
                if wf[at] > 0:
                    d = {"throttle": g["throttle"][at], "fltcond|h": g["alt"][at], "fltcond|M": g["mach"][at]}
                    if kw is not None:
                        d["hybrid_power"] = kw
                    yield (sub,) + at, d, {"thrust": g["thrust"][at], "fuel_flow": wf[at], "surge_margin": sm[at]}
    return rows


DECKS = {"CFM56": (C.CFM56, cfm, ["cfm56/cfm56thrust.npy"], (8, 9, 9), "fuel_flow"),
         "N3": (N.N3, n3("n+3", [("power_off", None)]), ["n+3/power_off/wf.npy"], (8, 7, 11), "fuel_flow"),
         "N3Hybrid": (N.N3Hybrid, n3("n+3_hybrid", [("power_off", 0.0), ("power_on_500kW", 500.0), ("power_on_1MW", 1000.0)]),
                      ["n+3_hybrid/%s/wf.npy" % s for s in ("power_off", "power_on_500kW", "power_on_1MW")], (8, 7, 11), "fuel_flow")}
UNITS = {"throttle": None, "fltcond|h": "ft", "fltcond|M": None, "hybrid_power": "kW", "thrust": "lbf", "fuel_flow": "lbm/s", "T4": "degR", "surge_margin": None}


def deck(name, nn, picks):
    make, rows, tab, shape, tag = DECKS[name]

    def fn(env):
        free = {}
        for n, at in enumerate(picks):
            free.setdefault(tab[n % len(tab)], []).append(at)
        with tables(env, free) as t:
            comp = make(num_nodes=nn)
            want = list(rows(t))
        names = list(want[0][1]) + list(want[0][2])
        flag(env, "inputs and outputs", set(t.ins) == set(want[0][1]) and set(t.outs) == set(want[0][2]))
        for n in names:
            flag(env, "%s: units" % n, (t.ins.get(n) or t.outs[n])[1].get("units") == UNITS[n])
            flag(env, "%s: one value per trained point" % n, (t.ins.get(n) or t.outs[n])[0].shape == (len(want),))
        flag(env, "vector size", comp.options["vec_size"] == nn)
        col = {n: (t.ins.get(n) or t.outs[n])[0] for n in names}
        at = {key(v): i for i, v in enumerate(col[tag])}
        flag(env, "every point once", len(at) == len(want))
        for where, i, o in want:
            k = at.get(key(o[tag]))
            if k is None:
                flag(env, "point %s is used" % (where,), False)
                continue
            for n, v in list(i.items()) + list(o.items()):
                env.eq("%s at %s" % (n, where), col[n][k], v)
    return fn


def caches(nn):
    """a surrogate given a file keeps its fit there and takes it from there: outputs sharing a file would share a fit"""
    def fn(env):
        seen = {}
        for name, (make, rows, tab, shape, tag) in DECKS.items():
            with tables(env, {}) as t:
                make(num_nodes=nn)
            for o, (_, kw) in t.outs.items():
                s = kw.get("surrogate")
                f = s.options["training_cache"] if s is not None else None
                if f:
                    f = os.path.normpath(str(f))
                    flag(env, "%s %s keeps a fit of its own" % (name, o), f not in seen)
                    seen[f] = (name, o)
            for o in t.outs:
                for q in t.outs:
                    a, b = t.outs[o][1].get("surrogate"), t.outs[q][1].get("surrogate")
                    flag(env, "%s %s and %s are fitted separately" % (name, o, q), o == q or a is None or a is not b)
    return fn


def harnesses(tier):
    out = [Semantic("stored fits/nn%d" % nn, caches(nn)) for nn in (1, 3)]
    n = pick(tier, 2, 3, 5)
    for name, d in DECKS.items():
        a, b, c = d[3]
        spots = [(0, 0, 0), (a - 1, b - 1, c - 1), (3, 0, 0), (a - 1, 4, 2), (2, b - 1, c - 1), (0, 3, 5), (5, 5, 0), (a - 1, 0, c - 1), (4, 4, 4), (6, 1, 7)]
        for s in range(pick(tier, 1, 2, 3)):
            for nn in (1, 3)[:1 + (s == 0)]:
                out.append(Semantic("%s/nn%d/spots %d" % (name, nn, s), deck(name, nn, spots[s * n:s * n + n]), max_paths=64, budget=200))
    return out
