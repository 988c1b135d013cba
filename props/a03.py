import contextlib
import copy
import multiprocessing
import sys
import numpy as np
import openmdao.api as om
from sx import expr as X, npx, omx, grp
from sx.core import Semantic
from .lib import flat, total, pick

TITLE = "Surrogate drag polars use the solver's data for the right geometry and condition"
BOUNDS = ["the aerodynamic solver itself (OpenAeroStruct) and the interpolation through the training table are arbitrary functions: the solver a generic quadratic "
          "function, with free coefficients, of every input it is given, the interpolant free values",
          "training data: grids of 2 x 2 x 2 and 3 x 1 x 2 points (thorough 3 x 2 x 4), meshes of 1 x 2 panels (thorough 2 x 3), histories of up to four evaluations of one or two "
          "components sharing the table, any one input entry changed by more than 1e-6 in between, or two entries of one input changed in opposite directions, one of the evaluations failing; the order in which workers finish is free for "
          "interfaces that allow it; all components of one process use the same training grid (documented restriction)",
          "drag polars: 1 and 3 nodes (thorough 5), every geometry option; vortex-lattice and aerostructural set-ups: all altitudes to 50 km, Mach numbers, angles and temperature offsets"]
PKG = "openconcept.aerodynamics.openaerostruct"
UNSET = 17.31
COND = {"fltcond|M": None, "fltcond|alpha": "deg", "fltcond|h": "m"}


# --------------------------------------------------------------------------- a stand-in for the external solver run
class Blank:
    def __init__(self):
        object.__setattr__(self, "d", {})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self.d.setdefault(k, Blank())

    def __setattr__(self, k, v):
        pass

    def __getitem__(self, k):
        return Blank()

    def __setitem__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return Blank()


class World:
    """what the solver would answer: outputs as generic functions of the values it was given"""

    def __init__(self, env, kind):
        self.env, self.kind = env, kind
        self.fail = 0
        self.runs = 0
        K = KINDS[kind]
        self.shapes = {}
        self.w = {}
        self.c = {}
        for o in K["outs"]:
            self.c[o] = flat(env.inp("cond:" + o, (3,), -1, 1, base=0.1))
            for v, (shape, u, lo, hi, base) in K["vars"].items():
                self.w[o, v] = flat(env.inp("w:%s:%s" % (o, v), shape, -5, 5, base=0.7))

    def scale(self, o, cond):
        if KINDS[self.kind]["outs"][o] == "ac|weights|W_wing":
            return 1
        a = self.c[o]
        return 1 + a[0] * cond[0] + a[1] * cond[1] + a[2] * cond[2]

    def value(self, o, x, cond):
        s = 0
        for v in KINDS[self.kind]["vars"]:
            xv = flat(x[v])
            s = s + total(self.w[o, v] * xv + xv * xv)
        return s * self.scale(o, cond)

    def slope(self, o, v, x, cond):
        return (self.w[o, v] + 2 * flat(x[v])) * self.scale(o, cond)


def convert(env, val, a, b):
    if a is None or b is None or a == b:
        return val
    f, o = grp.unit_rat(a, b)
    return (np.asarray(val) + float(o)) * float(f) if env.real else (npx.lift_arr(val) + X.const(o)) * X.const(f)


def fake_problem(world):
    env = world.env
    K = KINDS[world.kind]
    units = dict(COND, **{v: d[1] for v, d in K["vars"].items()})

    class Model(Blank):
        def __init__(self, prob):
            super().__init__()
            object.__setattr__(self, "prob", prob)
            object.__setattr__(self, "systems", [])

        def add_subsystem(self, name, sys_, *a, **k):
            self.systems.append(sys_)
            return sys_

        def set_input_defaults(self, name, val=None, units=None, **k):
            if val is not None:
                self.prob.set_val(name, val, units=units)

    class Problem:
        def __init__(self, *a, **k):
            self.model = Model(self)
            self.given = {}
            self.ran = None

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return Blank()

        def set_val(self, name, val=None, units=None, **k):
            if name in units_:
                val = convert(env, val, units, units_[name])
            self.given[name] = np.array(val, dtype=float if env.real else object)

        def __setitem__(self, name, val):
            self.set_val(name, val)

        def get(self, name):
            n = K["vars"][name][0] if name in K["vars"] else (1,)
            v = self.given.get(name)
            if v is None:
                v = np.full(n, UNSET)
            return np.broadcast_to(np.asarray(v).reshape(n) if np.size(v) == int(np.prod(n)) else v, n)

        def run_model(self, *a, **k):
            world.runs += 1
            if world.fail:
                world.fail -= 1
                raise om.AnalysisError("solver did not converge")
            s = self.model.systems
            if len(s) != 1 or type(s[0]).__name__ != K["solver"]:
                raise X.Unsupported("solver run set up differently")
            self.ran = {v: np.array(self.get(v)) for v in K["vars"]}
            self.cond = [flat(self.get(n))[0] for n in COND]
            opt = s[0].options
            for n, e in dict(K["sizes"], surf_options=K["surf"]).items():
                if n == "surf_options":
                    same = set(opt[n] or {}) == set(e) and all((opt[n] or {})[q] == e[q] for q in e)
                else:
                    same = int(opt[n]) == e
                env.eq("solver option " + n, 1.0 if same else 0.0, 1.0)

        def name_of(self, pub):
            for o, q in K["outs"].items():
                if q == pub:
                    return o
            raise X.Unsupported("solver output %r" % pub)

        def get_val(self, name, units=None, **k):
            if name in K["outs"].values():
                return self.arr([world.value(self.name_of(name), self.ran, self.cond)])
            return self.get(name)

        def __getitem__(self, name):
            return self.get_val(name)

        def arr(self, v):
            v = np.array(v, dtype=float if env.real else object)
            return v if env.real else npx.lift_arr(v)

        def compute_totals(self, of=None, wrt=None, **k):
            out = {}
            for f in of:
                for u in wrt:
                    out[f, u] = self.arr(world.slope(self.name_of(f), u, self.ran, self.cond)).reshape(1, -1)
            return out

    units_ = units
    return Problem


class Pool:
    """worker pool: calls run here; interfaces that promise no order give another one"""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, *a, **k):
        return [f(x) for x in it]

    imap = map

    def starmap(self, f, it, *a, **k):
        return [f(*x) for x in it]

    def imap_unordered(self, f, it, *a, **k):
        r = [f(x) for x in it]
        return r[1:] + r[:1]

    def close(self):
        pass

    join = terminate = close


@contextlib.contextmanager
def solver(world):
    """OpenAeroStruct runs and worker processes replaced for the time of a component call"""
    P = fake_problem(world)
    real = (om.Problem, multiprocessing.Pool)
    swaps = []

    def put(d, k, v):
        swaps.append((d, k, d[k]))
        d[k] = v

    put(om.__dict__, "Problem", P)
    multiprocessing.Pool, old_pool = Pool, multiprocessing.Pool
    for n, m in list(sys.modules.items()):
        if n.startswith(PKG):
            for k, v in list(vars(m).items()):
                if v is real[0]:
                    put(vars(m), k, P)
                elif k != "mp" and getattr(v, "__func__", v) is getattr(real[1], "__func__", real[1]) and callable(v):
                    put(vars(m), k, Pool)
    try:
        yield
    finally:
        multiprocessing.Pool = old_pool
        for d, k, v in reversed(swaps):
            d[k] = v


def kinds(nx, ny, ncp):
    mesh = (nx + 1, ny + 1, 3)
    return {
        "VLM": dict(cls="drag_polar.VLMDataGen", solver="VLM", opts=dict(num_x=nx, num_y=ny), sizes=dict(num_x=nx, num_y=ny), surf={"k_lam": 0.07},
                    vars={"ac|geom|wing|OAS_mesh": (mesh, "m", 0.5, 50, 1.3), "ac|geom|wing|toverc": ((ny,), None, 0.01, 0.5, 0.12),
                          "fltcond|TempIncrement": ((1,), "degC", -40, 40, 3.0)},
                    outs={"CL_train": "fltcond|CL", "CD_train": "fltcond|CD"}),
        "OAS": dict(cls="aerostructural.OASDataGen", solver="Aerostruct", opts=dict(num_x=nx, num_y=ny, num_twist=ncp, num_toverc=ncp + 1, num_skin=ncp, num_spar=ncp + 2),
                    sizes=dict(num_x=nx, num_y=ny, num_twist=ncp, num_toverc=ncp + 1, num_skin=ncp, num_spar=ncp + 2), surf={"k_lam": 0.07},
                    vars={"ac|geom|wing|S_ref": ((1,), "m**2", 1, 1e3, 100.0), "ac|geom|wing|AR": ((1,), None, 1, 30, 9.0), "ac|geom|wing|taper": ((1,), None, 0.01, 1, 0.3),
                          "ac|geom|wing|c4sweep": ((1,), "deg", 0, 60, 20.0), "ac|geom|wing|twist": ((ncp,), "deg", -0.9, 10, 1.0),
                          "ac|geom|wing|toverc": ((ncp + 1,), None, 0.01, 0.5, 0.12), "ac|geom|wing|skin_thickness": ((ncp,), "m", 1e-4, 0.1, 0.01),
                          "ac|geom|wing|spar_thickness": ((ncp + 2,), "m", 1e-4, 0.1, 0.01), "fltcond|TempIncrement": ((1,), "degC", -40, 40, 3.0)},
                    outs={"CL_train": "fltcond|CL", "CD_train": "fltcond|CD", "failure_train": "failure", "W_wing": "ac|weights|W_wing"}),
    }


KINDS = {}
GRIDS = [dict(Mach_train=np.array([0.2, 0.7]), alpha_train=np.array([-3.0, 8.0]), alt_train=np.array([0.0, 9e3])),
         dict(Mach_train=np.array([0.2, 0.5, 0.7]), alpha_train=np.array([4.0]), alt_train=np.array([1e3, 9e3])),
         dict(Mach_train=np.array([0.2, 0.5, 0.7]), alpha_train=np.array([4.0, 5.0]), alt_train=np.array([1e3, 3e3, 7e3, 9e3]))]


class Table:
    """one training-data component in one history"""

    def __init__(self, env, kind, sizes, grid, tag):
        KINDS.update(kinds(*sizes))
        self.env, self.kind, self.grid = env, kind, grid
        K = KINDS[kind]
        self.h = env.comp(PKG + "." + K["cls"], key=(tag, sizes), surf_options=dict(K["surf"]), **dict(K["opts"], **grid))
        self.reset()

    def reset(self):
        """the state right after set-up (class and instance attributes), once per explored path"""
        c = self.h.m.comp
        base = self.env.cache.setdefault(("a03 state", id(self.h.m)), {})
        for owner in (c.__dict__,) + tuple(k.__dict__ for k in type(c).__mro__ if k.__module__.startswith("openconcept")):
            own = type(c) if owner is not c.__dict__ else c
            for k, v in list(owner.items()):
                if k.startswith("__") or (own is c and k.startswith("_")):
                    continue
                if isinstance(v, np.ndarray) or v is None or isinstance(v, (int, float)) or type(v) is X.Sym or isinstance(v, dict) and k == "partials":
                    if (own is c, k) not in base:
                        base[own is c, k] = copy.deepcopy(v) if not isinstance(v, np.ndarray) else v.copy()
                    s = base[own is c, k]
                    if isinstance(s, np.ndarray):
                        s = s.copy() if self.env.real or s.dtype.kind != "f" else npx.lift_arr(s)
                    setattr(own, k, s)

    def __call__(self, x, world, **more):
        with solver(world):
            return {k: np.array(v) for k, v in self.h.run(dict(x, **more)).items()}

    def jac(self, world):
        m = self.h.m
        with solver(world):
            if self.env.real:
                with omx.quiet():
                    m.prob.model.run_linearize()
                pre = m.comp.pathname + "."
                return lambda o, v: np.array(m.comp._subjacs_info[pre + o, pre + v]["val"], dtype=float).reshape(m.info[o, v]["shape"])
            J = m.partials()
            J.settle()
            return lambda o, v: J.dense((o, v))

    def points(self):
        g = self.grid
        for i, M in enumerate(g["Mach_train"]):
            for j, a in enumerate(g["alpha_train"]):
                for k, h in enumerate(g["alt_train"]):
                    yield (i, j, k), (float(M), float(a), float(h))

    def right(self, label, o, x, world, nonwing=None):
        env = self.env
        for out, pub in KINDS[self.kind]["outs"].items():
            if pub == "ac|weights|W_wing":
                env.eq("%s: wing weight" % label, flat(o[out])[0], world.value(out, x, None))
                continue
            want = []
            for idx, cond in self.points():
                v = world.value(out, x, cond)
                want.append(v + nonwing if nonwing is not None and out == "CD_train" else v)
            env.eq("%s: %s holds the solver's value at each point of the grid" % (label, out), flat(o[out]), np.array(want, dtype=float if env.real else object))

    def slopes(self, label, J, x, world, only=None):
        env = self.env
        for out, pub in KINDS[self.kind]["outs"].items():
            for v in KINDS[self.kind]["vars"]:
                if only and v not in only:
                    continue
                got = np.asarray(J(out, v))
                if pub == "ac|weights|W_wing":
                    want = [world.slope(out, v, x, None)]
                else:
                    want = [world.slope(out, v, x, cond) for _, cond in self.points()]
                env.eq("%s: derivative of %s with respect to %s" % (label, out, v), flat(got), np.array([z for r in want for z in r], dtype=float if env.real else object))


def geometry(env, kind, tag):
    return {v: np.array(env.inp("%s:%s" % (tag, v), shape, lo, hi, base)) for v, (shape, u, lo, hi, base) in KINDS[kind]["vars"].items()}


def nonwing(env, kind, tag=""):
    return {"ac|aero|CD_nonwing": env.inp("CD_nonwing" + tag, (1,), 0, 1, base=0.02)} if kind == "OAS" else {}


def first(z):
    return flat(z["ac|aero|CD_nonwing"])[0] if z else None


def fresh(kind, sizes, grid):
    """one evaluation: table and derivatives"""
    def fn(env):
        t = Table(env, kind, sizes, grid, "a")
        w = World(env, kind)
        x, z = geometry(env, kind, "x"), nonwing(env, kind)
        t.right("first evaluation", t(x, w, **z), x, w, first(z))
        J = t.jac(w)
        t.slopes("first evaluation", J, x, w)
        if z:
            g = flat(J("CD_train", "ac|aero|CD_nonwing"))
            env.eq("non-wing drag coefficient enters the drag table one to one", g, np.ones(len(g)))
            for o in ("CL_train", "failure_train", "W_wing"):
                env.eq("non-wing drag coefficient does not enter " + o, flat(J(o, "ac|aero|CD_nonwing")), 0.0)
    return fn


def changed(env, kind, x, v, pos):
    """x with one entry of v moved by more than 1e-6, or two in opposite directions by any two such amounts"""
    d = env.inp("delta", (), 1e-6, 0.4, base=0.1)
    y = {k: np.array(a) for k, a in x.items()}
    f = y[v].reshape(-1)
    if isinstance(pos, tuple):
        f[pos[1]] = f[pos[1]] + env.inp("delta2", (), 1e-6, 0.4, base=0.2)
        pos = pos[0]
    f[pos] = f[pos] - d
    y[v] = f.reshape(x[v].shape)
    return y


def history(kind, sizes, grid, v, pos, first_up):
    """x, then x with one entry changed, then x again: always the data of the geometry asked for (in both directions of change)"""
    def fn(env):
        t = Table(env, kind, sizes, grid, "a")
        w = World(env, kind)
        x = geometry(env, kind, "x")
        z1, z2 = nonwing(env, kind, "1"), nonwing(env, kind, "2")
        y = changed(env, kind, x, v, pos)
        a, b = (y, x) if first_up else (x, y)
        t.right("first", t(a, w, **z1), a, w, first(z1))
        t.right("after a change of %s" % v, t(b, w, **z2), b, w, first(z2))
        J = t.jac(w)
        t.slopes("after a change of %s" % v, J, b, w, only=(v,))
        t.right("asked again", t(b, w, **z1), b, w, first(z1))
        t.right("and back", t(a, w, **z2), a, w, first(z2))
    return fn


def failing(kind, sizes, grid, v):
    """the solver fails for a new geometry; asked again it is asked again, not answered from the old data"""
    def fn(env):
        t = Table(env, kind, sizes, grid, "a")
        w = World(env, kind)
        x, z = geometry(env, kind, "x"), nonwing(env, kind)
        y = changed(env, kind, x, v, 0)
        t.right("before the failure", t(x, w, **z), x, w, first(z))
        w.fail = 1
        try:
            t(y, w, **z)
            raised = False
        except om.AnalysisError:
            raised = True
        env.eq("a failure of the solver is reported", 1.0 if raised else 0.0, 1.0)
        w.fail = 0
        t.right("after a failed evaluation", t(y, w, **z), y, w, first(z))
        t.slopes("after a failed evaluation", t.jac(w), y, w, only=(v,))
    return fn


def shared(kind, sizes, grid, v):
    """two components of a model (two flight segments) share the table"""
    def fn(env):
        a, b = Table(env, kind, sizes, grid, "a"), Table(env, kind, sizes, grid, "b")
        a.reset()
        w = World(env, kind)
        x, z1, z2 = geometry(env, kind, "x"), nonwing(env, kind, "1"), nonwing(env, kind, "2")
        y = changed(env, kind, x, v, 0)
        a.right("one", a(x, w, **z1), x, w, first(z1))
        b.right("the other, same geometry", b(x, w, **z2), x, w, first(z2))
        b.right("the other, new geometry", b(y, w, **z2), y, w, first(z2))
        a.right("the one, old geometry", a(x, w, **z1), x, w, first(z1))
        a.slopes("the one, old geometry", a.jac(w), x, w, only=(v,))
        b.right("the other, new geometry again", b(y, w, **z1), y, w, first(z1))
    return fn


# --------------------------------------------------------------------------- the groups around the solver
RANGE = {"*rhs:*": "const", "*|h": (0, 5e4), "*|M": (0.05, 2), "*TempIncrement": (-40, 40), "*alpha": (-20, 30), "*taper": (0.05, 1), "*c4sweep": (-60, 60), "*S_ref": (1, 1e3), "*AR": (1, 30),
         "*twist": (-10, 10), "*x_LE_sec": (-20, 20), "*y_sec": "y", "*chord_sec": (0.1, 20), "*": (0.01, 50)}


def arr(env, v):
    return np.array(list(v), dtype=float if env.real else object)


def atmosphere(env, h, dT):
    """the library's own atmosphere at one altitude (checked under A01)"""
    from openconcept.atmospherics import TemperatureComp, PressureComp, DensityComp, SpeedOfSoundComp
    T = np.array(env.comp(TemperatureComp, num_nodes=1).run({"fltcond|h": h, "fltcond|TempIncrement": dT})["fltcond|T"])
    p = np.array(env.comp(PressureComp, num_nodes=1).run({"fltcond|h": h})["fltcond|p"])
    rho = np.array(env.comp(DensityComp, num_nodes=1).run({"fltcond|T": T, "fltcond|p": p})["fltcond|rho"])
    a = np.array(env.comp(SpeedOfSoundComp, num_nodes=1).run({"fltcond|T": T})["fltcond|a"])
    return rho, a


def external(path, comp):
    return type(comp).__module__.split(".")[0] == "openaerostruct" or isinstance(comp, om.KSComp)



def flag(env, label, ok):
    env.eq(label, 1.0 if ok else 0.0, 1.0)


def alike(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    return a == b


def trained(env, g, cls, **want):
    """the training data are made with the options the model was given"""
    cs = [c for c in g.gm.comps if type(c).__name__ == cls]
    if len(cs) != 1:
        raise X.Unsupported("%d training data components" % len(cs))
    for n, v in want.items():
        have = cs[0].options[n]
        if n == "surf_options":
            flag(env, "training data use the surface options", set(have or {}) == set(v) and all(alike(have[k], v[k]) for k in v))
        else:
            flag(env, "training data use option " + n, alike(have, v))


def surfaces(env, g, at, surf):
    """every part of the external solver below `at` works with the given surface options"""
    n = 0
    for c in g.gm.comps:
        if not c.pathname.startswith("g." + at) or type(c).__module__.split(".")[0] != "openaerostruct":
            continue
        ds = []
        for o in ("surface", "surfaces"):
            if o in c.options._dict:
                v = c.options[o]
                ds += v if isinstance(v, (list, tuple)) else [v]
        for d in ds:
            n += 1
            for k, v in (surf or {}).items():
                flag(env, "surface option %s reaches the solver" % k, k in d and alike(d[k], v))
    flag(env, "the solver takes surfaces", n)


def sized(env, g, **want):
    """inputs have the sizes that were asked for"""
    for name, shape in want.items():
        ins = [i for i in g.gm.in_meta if i.endswith(name)]
        flag(env, "there is an input " + name, ins)
        for i in ins:
            flag(env, "size of " + name, tuple(q for q in g.gm.in_meta[i]["shape"] if q != 1) == tuple(q for q in shape if q != 1))


def flow(env, g, at, h, dT, M, alpha, wing):
    """every input of the solver below `at` that is a flow quantity; wing: further checks"""
    rho, a = atmosphere(env, h, dT)
    v = flat(a)[0] * flat(M)[0]
    mu = -3.329134e-10 * flat(h)[0] + 1.792398e-5
    want = {"v": (v, "m/s"), "rho": (flat(rho)[0], "kg/m**3"), "re": (flat(rho)[0] * v / mu, "1/m"), "alpha": (flat(alpha)[0], "deg"), "Mach_number": (flat(M)[0], None),
            "speed_of_sound": (flat(a)[0], "m/s")}
    for n, (w, u) in want.items():
        for i in g.inputs(at, n):
            env.eq("%s seen by the solver" % n, flat(g.inval(i, u)), w)


def outputs(env, g, pairs):
    for pub, o in pairs:
        env.eq("reported " + pub, flat(g.val(pub)), flat(g.val(o)))


def same(env, g, label, i, src, u=None):
    env.eq(label, flat(g.inval(i, u)), flat(g.val(src, u)))


def meshes(env, g, at, mesh):
    ms = [i for i in g.gm.in_meta if i.startswith("g." + at + ".") and i.endswith("def_mesh")]
    env.eq("the solver takes meshes", 1.0 if ms else 0.0, 1.0)
    for i in ms:
        env.eq("mesh seen by the solver", flat(g.inval(i[2:], "m")), flat(mesh))


def vlm(nx, ny, surf):
    def fn(env):
        import openconcept.aerodynamics.openaerostruct as O
        g = env.group(lambda: O.VLM(num_x=nx, num_y=ny, surf_options=surf), key=("vlm", nx, ny, repr(surf)), spec=RANGE, opaque=external)
        flow(env, g, "aero_point", g.val("fltcond|h", "m"), g.val("fltcond|TempIncrement", "degC"), g.val("fltcond|M"), g.val("fltcond|alpha", "deg"), None)
        tc, mesh = g.val("ac|geom|wing|toverc"), g.val("ac|geom|wing|OAS_mesh", "m")
        for i in g.inputs("aero_point", "t_over_c"):
            env.eq("thickness ratios seen by the solver", flat(g.inval(i)), flat(tc))
        meshes(env, g, "aero_point", mesh)
        flag(env, "size of the mesh", np.shape(mesh) == (nx + 1, ny + 1, 3))
        surfaces(env, g, "aero_point", surf)
        w = "aero_point.%s_perf." % (surf or {}).get("name", "wing")
        outputs(env, g, [("fltcond|CL", w + "CL"), ("fltcond|CD", w + "CD"), ("fltcond|CDi", w + "CDi"), ("fltcond|CDv", w + "CDv"), ("fltcond|CDw", w + "CDw"), ("sectional_CL", w + "Cl"),
                         ("panel_forces", "aero_point.aero_states.%s_sec_forces" % (surf or {}).get("name", "wing"))])
    return fn





def polar(nn, geo, ny, nsec=2, nx=1, vec=False, ntw=3):
    tot = (nsec - 1) * ny if isinstance(ny, int) and geo == "section" else ny if isinstance(ny, int) else int(sum(ny))

    def fn(env):
        import openconcept.aerodynamics.openaerostruct as O
        spec = dict(RANGE)
        if geo == "section":
            wid = flat(env.inp("width", (nsec - 1,), 0.05, 20, base=3.0))
            spec["*y_sec"] = np.array([0 - total(wid[k:]) for k in range(nsec - 1)], dtype=object if not env.real else float)
        grid = dict(Mach_train=np.array([0.1, 0.5, 0.7, 0.8]), alpha_train=np.linspace(-9, 15, 5), alt_train=np.linspace(0, 11e3, 5))

        def build():
            return O.VLMDragPolar(num_nodes=nn, num_x=nx, num_y=ny, num_sections=nsec, num_twist=ntw, geometry=geo, vec_CD_nonwing=vec, surf_options={"k_lam": 0.07}, **grid)

        opq = lambda path, comp: type(comp).__name__ in ("VLMDataGen", "Rotate", "SplineComp") or external(path, comp)
        g = env.group(build, key=("polar", nn, geo, repr(ny), nsec, nx, vec, ntw), spec=spec, opaque=opq)
        surrogate(env, g, nn, {"CL_train": "training_data.CL_train", "CD_train": "training_data.CD_train"})
        S, q = flat(g.val("ac|geom|wing|S_ref", "m**2"))[0], g.val("fltcond|q", "Pa")
        env.eq("drag", flat(g.val("drag", "N")), flat(q) * S * (flat(g.val("aero_surrogate.CD")) + flat(g.val("ac|aero|CD_nonwing"))))
        td = "training_data."
        env.eq("temperature offset of the training data", flat(g.inval(td + "fltcond|TempIncrement", "degC")), flat(g.val("fltcond|TempIncrement", "degC")))
        trained(env, g, "VLMDataGen", num_x=nx, num_y=tot, surf_options={"k_lam": 0.07}, **grid)
        mesh, tc = g.inval(td + "ac|geom|wing|OAS_mesh", "m"), flat(g.inval(td + "ac|geom|wing|toverc"))
        if geo == "mesh":
            env.eq("training mesh", flat(mesh), flat(g.val("ac|geom|wing|OAS_mesh", "m")))
            env.eq("training thickness ratios", tc, flat(g.val("ac|geom|wing|toverc")))
            return
        from openconcept.aerodynamics.openaerostruct import mesh_gen as MG
        env.eq("training mesh is the twisted mesh", flat(mesh), flat(g.val("twisted_mesh", "m")))
        if geo == "trapezoidal":
            ref = env.comp(MG.TrapezoidalPlanformMesh, num_x=nx, num_y=ny).run({"S": g.val("ac|geom|wing|S_ref", "m**2"), "AR": g.val("ac|geom|wing|AR"), "taper": g.val("ac|geom|wing|taper"),
                                                                               "sweep": g.val("ac|geom|wing|c4sweep", "deg")})["mesh"]
        else:
            ref = env.comp(MG.SectionPlanformMesh, num_x=nx, num_y=ny, num_sections=nsec, scale_area=True).run(
                {"S": g.val("ac|geom|wing|S_ref", "m**2"), "x_LE_sec": g.val("ac|geom|wing|x_LE_sec", "m"), "y_sec": g.val("ac|geom|wing|y_sec", "m"), "chord_sec": g.val("ac|geom|wing|chord_sec", "m")})["mesh"]
        ref = np.array(ref)
        env.eq("untwisted mesh is the wing that was described", flat(g.inval("twist_mesh.in_mesh", "m")), flat(ref))
        y = flat(ref[0, :, 1])
        edges = [0, tot] if geo == "trapezoidal" else list(np.concatenate([[0], np.cumsum([ny] * (nsec - 1) if isinstance(ny, int) else ny)]))
        line = []
        for k in range(len(edges) - 1):
            a, b = int(edges[k]), int(edges[k + 1])
            line += [(k, j, a, b) for j in range(a, b)]
        line.append((len(edges) - 2, tot, int(edges[-2]), tot))

        def along(vals):
            """value at each mesh node: linear in span between the sections, times (y_b - y_a) of its region"""
            return [(vals[k] * (y[b] - y[j]) + vals[k + 1] * (y[j] - y[a]), y[b] - y[a]) for k, j, a, b in line]

        if geo == "section":
            tw = flat(g.inval("twist_mesh.twist", "deg"))
            for j, (z, d) in enumerate(along(flat(g.val("ac|geom|wing|twist", "deg")))):
                env.eq("twist varies linearly in span between the sections (node %d)" % j, tw[j] * d, z)
        else:
            env.eq("twist of the mesh is the spline's", flat(g.inval("twist_mesh.twist", "deg")), flat(g.val("twist_bsp.twist", "deg")))
            env.eq("twist control points reach the spline", flat(g.inval("twist_bsp.twist_cp", "deg")), flat(g.val("ac|geom|wing|twist", "deg")))
        secs = flat(g.val("ac|geom|wing|toverc"))
        for p in range(tot):
            k, _, a, b = line[p]
            d = y[b] - y[a]
            mid = (y[p] + y[p + 1]) / 2
            env.eq("thickness ratio varies linearly in span between the sections (strip %d)" % p, tc[p] * d, secs[k] * (y[b] - mid) + secs[k + 1] * (mid - y[a]))
    return fn


def surrogate(env, g, nn, tables):
    st = "alpha_bal.alpha"
    env.eq("surrogate is read at the state's angle of attack", flat(g.inval("aero_surrogate.alpha", "deg")), flat(g.val(st, "deg")))
    env.eq("surrogate is read at the flight Mach number", flat(g.inval("aero_surrogate.fltcond|M")), flat(g.val("fltcond|M")))
    env.eq("surrogate is read at the flight altitude", flat(g.inval("aero_surrogate.fltcond|h", "m")), flat(g.val("fltcond|h", "m")))
    env.eq("the angle of attack makes the surrogate's lift coefficient the requested one", flat(g.residual(st)), flat(g.val("aero_surrogate.CL")) - flat(g.val("fltcond|CL")))
    for t, src in tables.items():
        same(env, g, "surrogate is trained on " + src, "aero_surrogate." + t, src)


def struct_polar(nn, ncp, nx=1, ny=2):
    def fn(env):
        import openconcept.aerodynamics.openaerostruct as O
        n = dict(num_twist=ncp, num_toverc=ncp + 1, num_skin=ncp + 2, num_spar=ncp + 3)
        grid = dict(Mach_train=np.array([0.1, 0.5, 0.7, 0.8]), alpha_train=np.linspace(-8, 14, 5), alt_train=np.linspace(0, 11e3, 6))
        g = env.group(lambda: O.AerostructDragPolar(num_nodes=nn, num_x=nx, num_y=ny, surf_options={"k_lam": 0.07}, **n, **grid), key=("adp", nn, ncp, nx, ny), spec=RANGE,
                      opaque=lambda path, comp: type(comp).__name__ == "OASDataGen" or external(path, comp))
        trained(env, g, "OASDataGen", num_x=nx, num_y=ny, surf_options={"k_lam": 0.07}, **n, **grid)
        surrogate(env, g, nn, {t + "_train": "training_data.%s_train" % t for t in ("CL", "CD", "failure")})
        S, q = flat(g.val("ac|geom|wing|S_ref", "m**2"))[0], g.val("fltcond|q", "Pa")
        env.eq("drag", flat(g.val("drag", "N")), flat(q) * S * flat(g.val("aero_surrogate.CD")))
        outputs(env, g, [("failure", "aero_surrogate.failure"), ("ac|weights|W_wing", "training_data.W_wing")])
        for v, u in GEOM.items():
            env.eq("training data are made for the given " + v, flat(g.inval("training_data." + v, u)), flat(g.val(v, u)))
        env.eq("non-wing drag goes into the training data", flat(g.inval("training_data.ac|aero|CD_nonwing")), flat(g.val("ac|aero|CD_nonwing")))
    return fn


GEOM = {"ac|geom|wing|S_ref": "m**2", "ac|geom|wing|AR": None, "ac|geom|wing|taper": None, "ac|geom|wing|c4sweep": "deg", "ac|geom|wing|twist": "deg", "ac|geom|wing|toverc": None,
        "ac|geom|wing|skin_thickness": "m", "ac|geom|wing|spar_thickness": "m", "fltcond|TempIncrement": "degC"}


def wing_of(env, g, pre, get):
    """the wing of one aerostructural set-up below `pre` is the one described by get(name, units)"""
    from openconcept.aerodynamics.openaerostruct import mesh_gen as MG
    w = pre + "wing."
    m = g.gm.in_meta["g." + w + "twist_mesh.in_mesh"]["shape"]
    ref = env.comp(MG.TrapezoidalPlanformMesh, num_x=m[0] - 1, num_y=m[1] - 1).run(
        {"S": get("ac|geom|wing|S_ref", "m**2"), "AR": get("ac|geom|wing|AR", None), "taper": get("ac|geom|wing|taper", None), "sweep": get("ac|geom|wing|c4sweep", "deg")})["mesh"]
    env.eq("untwisted mesh is the wing that was described", flat(g.inval(w + "twist_mesh.in_mesh", "m")), flat(np.array(ref)))
    for i, v, u in (("twist_bsp.twist_cp", "ac|geom|wing|twist", "deg"), ("t_over_c_bsp.t_over_c_cp", "ac|geom|wing|toverc", None),
                    ("wingbox_group.skin_thickness_bsp.skin_thickness_cp", "ac|geom|wing|skin_thickness", "m"),
                    ("wingbox_group.spar_thickness_bsp.spar_thickness_cp", "ac|geom|wing|spar_thickness", "m")):
        env.eq(v + " control points reach their spline", flat(g.inval(w + i, u)), flat(get(v, u)))
    same(env, g, "mesh is twisted by the spline's twist", w + "twist_mesh.twist", w + "twist_bsp.twist", "deg")
    pt = pre + "aerostruct_point"
    for n, src, u in (("mesh", "twist_mesh.mesh", "m"), ("t_over_c", "t_over_c_bsp.t_over_c", None), ("nodes", "struct_setup.nodes.nodes", "m"),
                      ("local_stiff_transformed", "struct_setup.assembly.local_stiff_transformed.local_stiff_transformed", None),
                      ("element_mass", "struct_setup.structural_mass.element_mass", "kg"), ("wing_structural_mass", "struct_setup.structural_mass.structural_mass", "kg"),
                      ("wing_cg_location", "struct_setup.structural_cg.cg_location", "m"), ("spar_thickness", "wingbox_group.spar_thickness_bsp.spar_thickness", "m"),
                      ("A_enc", "wingbox_group.wingbox.A_enc", "m**2"), ("Qz", "wingbox_group.wingbox.Qz", "m**3"), ("J", "wingbox_group.wingbox.J", "m**4"),
                      ("htop", "wingbox_group.wingbox.htop", "m"), ("hbottom", "wingbox_group.wingbox.hbottom", "m"), ("hfront", "wingbox_group.wingbox.hfront", "m"),
                      ("hrear", "wingbox_group.wingbox.hrear", "m")):
        ins = g.inputs(pt, n)
        env.eq("the coupled analysis takes " + n, 1.0 if ins else 0.0, 1.0)
        for i in ins:
            same(env, g, "%s of the coupled analysis" % n, i, w + src, u)
    for i in g.inputs(pre + "wing", "mesh"):
        same(env, g, "mesh the structure is built on", i, w + "twist_mesh.mesh", "m")
    for i in g.inputs(pre + "wing", "t_over_c"):
        same(env, g, "thickness ratios the structure is built with", i, w + "t_over_c_bsp.t_over_c")


def splines(env, g, pre, nx, ny, n):
    w = "g." + pre + "wing."
    sized(env, g, **{w + "twist_mesh.in_mesh": (nx + 1, ny + 1, 3), w + "twist_bsp.twist_cp": (n["num_twist"],), w + "t_over_c_bsp.t_over_c_cp": (n["num_toverc"],),
                     w + "wingbox_group.skin_thickness_bsp.skin_thickness_cp": (n["num_skin"],), w + "wingbox_group.spar_thickness_bsp.spar_thickness_cp": (n["num_spar"],)})


def struct(ncp, surf, nx=1, ny=2, alike=False):
    def fn(env):
        import openconcept.aerodynamics.openaerostruct as O
        n = dict(num_twist=ncp, num_toverc=ncp, num_skin=ncp, num_spar=ncp) if alike else dict(num_twist=ncp, num_toverc=ncp + 1, num_skin=ncp + 2, num_spar=ncp + 3)
        g = env.group(lambda: O.Aerostruct(num_x=nx, num_y=ny, surf_options=surf, **n), key=("aerostruct", ncp, alike, repr(surf), nx, ny), spec=RANGE, opaque=lambda p, c: external(p, c) or isinstance(c, om.SplineComp))
        flow(env, g, "aerostruct_point", g.val("fltcond|h", "m"), g.val("fltcond|TempIncrement", "degC"), g.val("fltcond|M"), g.val("fltcond|alpha", "deg"), None)
        wing_of(env, g, "", g.val)
        splines(env, g, "", nx, ny, n)
        surfaces(env, g, "", surf)
        lf = flat(g.val("load_factor"))
        for i in g.inputs("aerostruct_point", "load_factor"):
            env.eq("load factor of the coupled analysis", flat(g.inval(i)), lf)
        outputs(env, g, [("fltcond|CL", "aerostruct_point.total_perf.CL_CD.CL"), ("fltcond|CD", "aerostruct_point.total_perf.CL_CD.CD"),
                         ("failure", "aerostruct_point.wing_perf.struct_funcs.failure.failure"), ("ac|weights|W_wing", "wing.struct_setup.structural_mass.structural_mass")])
    return fn


def exact(nn, nx=1, ny=2, n=dict(num_twist=1, num_toverc=2, num_skin=2, num_spar=3), surf=None):
    def fn(env):
        import openconcept.aerodynamics.openaerostruct as O

        def build():
            o = om.Group()
            ivc = o.add_subsystem("flight", om.IndepVarComp(), promotes=["*"])
            for v, u in (("fltcond|M", None), ("fltcond|h", "m"), ("fltcond|CL", None), ("fltcond|q", "Pa")):
                ivc.add_output(v, np.full(nn, 0.5), units=u)
            o.add_subsystem("polar", O.AerostructDragPolarExact(num_nodes=nn, num_x=nx, num_y=ny, **(dict(n, surf_options=dict(surf)) if surf else n)), promotes=["*"])
            return o

        g = env.group(build, key=("exact", nn, nx, ny, repr(surf), repr(n)), spec=RANGE, opaque=lambda p, c: external(p, c) or isinstance(c, om.SplineComp))
        h, M, al = g.val("fltcond|h", "m"), g.val("fltcond|M"), g.val("fltcond|alpha", "deg")
        S, q = flat(g.val("ac|geom|wing|S_ref", "m**2"))[0], flat(g.val("fltcond|q", "Pa"))
        cl, cd, fl = [], [], []
        for k in range(nn):
            pre = "polar.aerostruct_%d." % k
            flow(env, g, pre + "aerostruct_point", flat(h)[k:k + 1], g.val("fltcond|TempIncrement", "degC"), flat(M)[k:k + 1], flat(al)[k:k + 1], None)
            wing_of(env, g, pre, g.val)
            splines(env, g, pre, nx, ny, n)
            surfaces(env, g, pre, surf)
            cl.append(flat(g.val(pre + "aerostruct_point.total_perf.CL_CD.CL"))[0])
            cd.append(flat(g.val(pre + "aerostruct_point.total_perf.CL_CD.CD"))[0])
            fl.append(flat(g.val(pre + "aerostruct_point.wing_perf.struct_funcs.failure.failure"))[0])
        cl, cd, fl = arr(env, cl), arr(env, cd), arr(env, fl)
        env.eq("the angle of attack makes each node's lift coefficient the requested one", flat(g.residual("fltcond|alpha")), cl - flat(g.val("fltcond|CL")))
        env.eq("drag of each node", flat(g.val("drag", "N")), q * S * (cd + flat(g.val("ac|aero|CD_nonwing"))[0]))
        env.eq("failure of each node", flat(g.val("failure")), fl)
        ws = [flat(g.val("polar.aerostruct_%d.wing.struct_setup.structural_mass.structural_mass" % k, "kg"))[0] for k in range(nn)]
        env.eq("wing weight is that of one of the nodes", total([1]) * np.prod([flat(g.val("ac|weights|W_wing", "kg"))[0] - x for x in ws]), 0.0, scale=total(ws) ** nn if env.real else None)
    return fn


def critical(ny, vec, nx=1, rho=150.0):
    def fn(env):
        import openconcept.aerodynamics.openaerostruct as O
        g = env.group(lambda: O.CLmaxCriticalSectionVLM(num_x=nx, num_y=ny, vec_Cl_max=vec, surf_options={"k_lam": 0.07}, rho=rho), key=("clmax", ny, vec, nx, rho), spec=RANGE, opaque=external)
        al = g.val("sectional_CL_balance.alpha", "deg")
        flow(env, g, "aero.VLM.aero_point", g.val("fltcond|h", "m"), g.val("fltcond|TempIncrement", "degC"), g.val("fltcond|M"), al, None)
        pt = "aero.VLM.aero_point"
        for i in g.inputs(pt, "t_over_c"):
            env.eq("thickness ratios seen by the solver", flat(g.inval(i)), flat(g.val("ac|geom|wing|toverc")))
        meshes(env, g, pt, g.val("ac|geom|wing|OAS_mesh", "m"))
        flag(env, "size of the mesh", np.shape(g.val("ac|geom|wing|OAS_mesh", "m")) == (nx + 1, ny + 1, 3))
        surfaces(env, g, pt, {"k_lam": 0.07})
        ks = [c for c in g.gm.comps if isinstance(c, om.KSComp)]
        flag(env, "one aggregation of the margins", len(ks) == 1)
        flag(env, "aggregation factor", all(c.options["rho"] == rho for c in ks))
        w = pt + ".wing_perf."
        cl = flat(g.val(w + "Cl"))
        lim = flat(g.val("ac|aero|airfoil_Cl_max"))
        env.eq("margin of every section to its maximum", flat(g.inval("aero.max_limit.g")), cl - (lim if vec else lim[0]))
        env.eq("the angle of attack brings the aggregated margin to zero", flat(g.residual("sectional_CL_balance.alpha")), flat(g.val("aero.max_limit.KS")) - 0.0)
        outputs(env, g, [("CL_max", w + "CL")])
    return fn


def harnesses(tier):
    H = []
    sizes = pick(tier, [(1, 2, 1)], [(1, 2, 1)], [(1, 2, 1), (2, 3, 2)])
    for s in sizes:
        KINDS.update(kinds(*s))
        for kind in ("VLM", "OAS"):
            for gi, grid in enumerate(pick(tier, GRIDS[:2], GRIDS[:2], GRIDS)):
                H.append(Semantic("training data %s %s grid %d" % (kind, s, gi), fresh(kind, s, grid)))
            for v, d in KINDS[kind]["vars"].items():
                n = int(np.prod(d[0]))
                for pos in (sorted({0, n // 2, n - 1}) if tier != "quick" else [0]) + ([(0, n - 1), (n // 2, 0)] if n > 2 else [(0, 1)] if n == 2 else []):
                    for up in (False, True):
                        H.append(Semantic("training data history %s %s %s[%s] %s" % (kind, s, v, pos, "up" if up else "down"), history(kind, s, GRIDS[1], v, pos, up)))
            v0 = list(KINDS[kind]["vars"])[0]
            for v in KINDS[kind]["vars"]:
                H.append(Semantic("training data after a failure %s %s %s" % (kind, s, v), failing(kind, s, GRIDS[1], v)))
                H.append(Semantic("training data shared %s %s %s" % (kind, s, v), shared(kind, s, GRIDS[1], v)))
    for nx, ny in pick(tier, [(1, 2)], [(1, 2), (2, 3)], [(1, 2), (2, 3), (3, 5)]):
        for surf in ({}, {"k_lam": 0.1, "with_wave": False}) if (nx, ny) == (1, 2) else ({},):
            H.append(Semantic("vortex lattice %d %d %s" % (nx, ny, sorted(surf)), vlm(nx, ny, surf)))
    for nn in pick(tier, [1], [1, 3], [1, 3, 5]):
        for vec in (False, True):
            H.append(Semantic("polar mesh nn=%d vec=%s" % (nn, vec), polar(nn, "mesh", 2, vec=vec)))
            for ny in (2, 5):
                H.append(Semantic("polar trapezoidal nn=%d ny=%d vec=%s" % (nn, ny, vec), polar(nn, "trapezoidal", ny, vec=vec, nx=1 if ny == 2 else 2, ntw=3 if ny == 2 else 5)))
            for nsec, ny in ((2, 3), (3, 2), (3, [1, 3]), (4, (2, 1, 3))):
                H.append(Semantic("polar section nn=%d sections=%d ny=%s vec=%s" % (nn, nsec, ny, vec), polar(nn, "section", ny, nsec=nsec, vec=vec)))
        for ncp in (1, 3):
            H.append(Semantic("aerostructural polar nn=%d cp=%d" % (nn, ncp), struct_polar(nn, ncp)))
        H.append(Semantic("aerostructural polar nn=%d mesh 2x3" % nn, struct_polar(nn, 2, 2, 3)))
    for surf in (None, {"k_lam": 0.1, "wing_weight_ratio": 2.0}):
        for ncp in (1, 4):
            H.append(Semantic("aerostructural set-up cp=%d %s" % (ncp, sorted(surf or {})), struct(ncp, surf)))
        H.append(Semantic("aerostructural set-up as many control points of each kind %s" % sorted(surf or {}), struct(3, surf, alike=True)))
        H.append(Semantic("aerostructural set-up mesh 2x3 %s" % sorted(surf or {}), struct(2, surf, 2, 3)))
    for nn in pick(tier, [1], [1, 2], [1, 2, 3]):
        H.append(Semantic("exact aerostructural polar nn=%d" % nn, exact(nn)))
        H.append(Semantic("exact aerostructural polar nn=%d mesh 2x3" % nn, exact(nn, 2, 3, dict(num_twist=3, num_toverc=1, num_skin=4, num_spar=2), {"k_lam": 0.07})))
    for ny in pick(tier, [3], [2, 4], [2, 4, 7]):
        for vec in (False, True):
            H.append(Semantic("critical section ny=%d vec=%s" % (ny, vec), critical(ny, vec)))
        H.append(Semantic("critical section mesh 2x%d" % ny, critical(ny, True, 2, 120.0)))
    return H
