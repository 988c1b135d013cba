"""Harness machinery: environments (symbolic / real), goals, counterexample search, derivative harnesses."""
import importlib
import json
import os
import math
import random
import signal
import time
import traceback
from fractions import Fraction
import numpy as np

from . import expr as X, npx, omx, solve, explore
from .expr import Sym, SymDomainError, Unsupported
from .gp import GP, TooBig
import z3


class HarnessTimeout(BaseException):
    pass


class Result:
    def __init__(self, name):
        self.name = name
        self.goals = 0
        self.discharged = 0
        self.inconclusive = []  # strings
        self.candidates = []  # dicts for replay
        self.functions = set()
        self.bounds = []
        self.paths = 0
        self.notes = set()
        self.stats = solve.Stats()
        self.wall = 0.0
        self.witness = False
        self.deferred = []

    def asdict(self):
        return dict(name=self.name, goals=self.goals, discharged=self.discharged, inconclusive=self.inconclusive,
                    candidates=self.candidates, functions=sorted(self.functions), bounds=self.bounds,
                    paths=self.paths, notes=sorted(self.notes), stats=self.stats.asdict(), wall=round(self.wall, 2),
                    witness=self.witness)


# ------------------------------------------------------------------------------------------------ sampling
def sample_var2(lo, hi, pos, rng, k, base=None):
    if lo is not None and hi is not None:
        if lo > 0 and hi / lo > 1e3:
            return math.exp(rng.uniform(math.log(lo), math.log(hi)))
        return rng.uniform(lo, hi)
    if base is not None and base != 0 and k % 3 != 2:
        v = base * math.exp(rng.uniform(-0.5, 0.5))
        if pos and v <= 0:
            v = abs(v)
        if (lo is None or v > lo) and (hi is None or v < hi):
            return v
    if lo is not None:
        return lo + math.exp(rng.uniform(-2.5, 2.5) if k % 2 else rng.uniform(-1, 6))
    if hi is not None:
        return hi - math.exp(rng.uniform(-2.5, 2.5) if k % 2 else rng.uniform(-1, 6))
    return rng.choice((-1, 1)) * math.exp(rng.uniform(-2.5, 2.5))


def z3_point(ctx, names, extra=None, timeout=3000):
    """a model of the path condition (floats) or None"""
    s = z3.Solver()
    s.set("timeout", timeout)
    tr = solve.Z3Tr()
    for op, d, v in ctx.conds():
        s.add(solve.cond_z3(tr, op, d, v))
    if extra is not None:
        s.add(extra(tr))
    for n in names:
        tr.var(n)
    for a in tr.axioms:
        s.add(a)
    r = ctx.stats.run(s)
    if r != z3.sat:
        return r, None
    m = s.model()
    pt = {}
    for n, v in tr.vars.items():
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_algebraic_value(x):
                x = x.approx(30)
            pt[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        except Exception:
            pt[n] = 1.0
    return r, pt


def holds_conds(ctx, point, memo):
    for op, d, v in ctx.conds():
        x = X.evalf(d, point, memo)
        t = x < 0 if op == "<" else x == 0
        if t != v:
            return False
    return True


def real_name(n):
    return "!" not in n


def narrowed(ctx):
    """variable boxes tightened by path conditions that are linear in one variable"""
    box = {}
    for op, d, v in ctx.conds():
        vs = X.variables(d)
        if len(vs) != 1 or op != "<":
            continue
        n, = vs
        k = X.diff(d, n)
        if k.op != "c" or k.args == 0:
            continue
        c = X.subst(d, {n: X.const(0)})
        if c.op != "c":
            continue
        r = float(-c.args / k.args)
        up = (k.args > 0) == v  # n < r
        lo, hi = box.get(n, (None, None))
        if up:
            hi = r if hi is None else min(hi, r)
        else:
            lo = r if lo is None else max(lo, r)
        box[n] = (lo, hi)
    return box


def cond_badness(ctx, point, memo):
    """0 when the path condition holds, else a positive measure"""
    bad = 0.0
    for op, d, v in ctx.conds():
        x = X.evalf(d, point, memo)
        t = x < 0 if op == "<" else x == 0
        if t != v:
            bad += 1.0 + min(1.0, float(abs(x)) / (1.0 + float(abs(x))))
    return bad


def find_point(ctx, names, pred, base=None, tries=300, seed=1, z3first=True):
    """concrete point in the domain, on this path, satisfying pred(point, memo)"""
    mp = X.mpc()
    rng = random.Random(seed)
    base = base or {}
    names = [n for n in names if not n.startswith(("stale!", "j!"))]
    zp = None
    if z3first and ctx.conds():
        _, zp = z3_point(ctx, names)
    box = narrowed(ctx)
    lim = {}
    for n in names:
        info = X.VARS[n]
        lo = None if info.lo is None else float(info.lo)
        hi = None if info.hi is None else float(info.hi)
        b = box.get(n)
        if b is not None:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        lim[n] = (lo, hi)
    best = None  # closest point to the path so far (values, badness)
    onpath = None
    for k in range(tries):
        pt = {}
        local = best is not None and k % 4 == 3
        near = onpath is not None and k % 4 == 1
        wide = 10 ** (k % 4) if k % 5 == 4 else 1
        for n in names:
            info = X.VARS[n]
            lo, hi = lim[n]
            if local or near:
                v = (best[0] if local else onpath)[n]
                if rng.random() < 0.5:
                    v = v * math.exp(rng.uniform(-1.5, 1.5)) if v and rng.random() < 0.8 else v + rng.uniform(-1, 1)
            elif zp is not None and k % 3 == 0 and n in zp:
                v = zp[n]
                if k:
                    v = v * (1 + rng.uniform(-1, 1) * 0.1 ** (k % 5)) + (rng.uniform(-1, 1) * 0.01 if not v else 0)
            else:
                v = sample_var2(lo, hi, info.pos, rng, k, base.get(n))
                if wide > 1 and hi is None:
                    v *= math.exp(rng.uniform(-1, 1) * math.log(wide))
            if lo is not None and v <= lo:
                v = lo + 1e-3 * (max(abs(lo), 1e-3) if hi is None else (hi - lo))
            if hi is not None and v >= hi:
                v = hi - 1e-3 * (max(abs(hi), 1e-3) if lo is None else (hi - lo))
            pt[n] = v
        mpt = {n: mp.mpf(v) for n, v in pt.items()}
        memo = {}
        try:
            bad = cond_badness(ctx, mpt, memo)
            if bad > 0:
                if best is None or bad <= best[1]:
                    best = (pt, bad)
                continue
            onpath = pt
            if pred(mpt, memo):
                return {n: float(v) for n, v in pt.items()}
        except (SymDomainError, ZeroDivisionError, OverflowError, ValueError):
            continue
        except Exception as e:  # mpmath complaints
            if "mpmath" in type(e).__module__:
                continue
            raise
    return None


# ------------------------------------------------------------------------------------------------ environments
class PreconditionFailed(Exception):
    pass


class Env:
    """what a semantic harness sees. In symbolic mode inputs are Sym arrays and goals are collected; in real mode
    inputs are the floats of a counterexample, components run inside a genuine OpenMDAO Problem."""

    def __init__(self, real_point=None, cache=None):
        self.point = real_point
        self.real = real_point is not None
        self.goals = []
        self.cache = cache if cache is not None else {}
        self.funcs = set()
        self.alike = False  # set by a harness that compares two runs of the same code: undefined both times is alike
        self.ctx = None
        self.inputs_decl = {}

    # -- inputs
    def inp(self, name, shape=(), lo=None, hi=None, base=None):
        if isinstance(shape, int):
            shape = (shape,)
        self.inputs_decl[name] = (shape, lo, hi, base)
        if self.real:
            out = np.empty(shape, dtype=float)
            for idx in np.ndindex(*shape):
                nm = name + ("[%s]" % ",".join(map(str, idx)) if idx else "")
                out[idx] = self.point.get(nm, 1.0 if base is None else base)
            return out if shape else out.item()
        a = omx.sym_array(name, shape, lo, hi)
        return a if shape else a.item()

    def pos(self, name, shape=(), base=None, hi=None):
        return self.inp(name, shape, 0, hi, base)

    def assume(self, a, op, b=0):
        """precondition a op b with op in < <= > >="""
        if self.real:
            ok = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            if not np.all(ok):
                raise PreconditionFailed("%s" % op)
            return
        for x, y in zip(*_bc(a, b)):
            d = X.add(X.lift(x), X.neg(X.lift(y)))
            if op == "<":
                self.ctx.assume("<", d, True)
            elif op == ">":
                self.ctx.assume("<", X.neg(d), True)
            elif op == "<=":
                self.ctx.assume("<", X.neg(d), False)
            else:
                self.ctx.assume("<", d, False)

    # -- goals
    def eq(self, label, a, b, tol=1e-6, scale=None):
        if np.size(a) != np.size(b):
            try:
                np.broadcast_shapes(np.shape(a), np.shape(b))
            except ValueError:  # not the same number of values: that is already unequal
                a, b, scale = float(np.size(a)), float(np.size(b)), None
                label = label + " (number of values)"
        self.goals.append(("eq", label, a, b, tol, scale))

    def le(self, label, a, b, tol=1e-7):
        self.goals.append(("le", label, a, b, tol, None))

    def ge(self, label, a, b, tol=1e-7):
        self.goals.append(("le", label, b, a, tol, None))

    def lt(self, label, a, b):
        self.goals.append(("lt", label, a, b, 0, None))

    def gt(self, label, a, b):
        self.goals.append(("lt", label, b, a, 0, None))

    # -- components
    def comp(self, cls, key=None, conn=None, build=None, values=None, symopts=None, **opts):
        """symopts: option name -> value that may be symbolic (set after the real setup ran with a placeholder)"""
        if isinstance(cls, str):
            m, c = cls.rsplit(".", 1)
            with npx.unpatched():
                cls = getattr(importlib.import_module(m), c)
        if symopts:
            if self.real:
                opts = dict(opts, **{n: float(v) for n, v in symopts.items()})
            else:
                opts = dict(opts, **{n: 0.37 for n in symopts})
        k = (cls.__module__, cls.__name__, key, repr(sorted(opts.items(), key=lambda t: t[0])))
        h = self.cache.get(k)
        if h is None:
            with npx.unpatched():
                inst = build(cls) if build else cls(**opts)
                h = omx.CompModel(inst, conn, values)
            self.cache[k] = h
        return Handle(self, h, cls, None if self.real else symopts)

    def group(self, build, key, name="", spec=None, opaque=None, setup=None, only=None, setups=1):
        """run a whole group; spec: pattern -> (lo, hi) | "const" | value for its free variables (default: positive when
        the default value is not negative, else any real)"""
        from . import grp

        k = ("group", key)
        gm = self.cache.get(k)
        if gm is None:
            with npx.unpatched():
                gm = grp.GroupModel(build, setup, opaque, setups)
            self.cache[k] = gm
        gh = grp.GroupHandle(self, gm, name)
        if self.real:
            return grp.real_run(gh, spec or {}, opaque)
        return grp.sym_run(gh, spec or {}, opaque, only)

    def math(self, f, x):
        """elementary function usable in goals for both modes"""
        if self.real:
            return getattr(np, f)(x)
        if isinstance(x, np.ndarray):
            return getattr(np, f)(npx.lift_arr(x))
        return getattr(X.lift(x), f)()

    def sym(self, x):
        return x


def code_error(e):
    """did the exception come out of the checked code (not out of a harness)?"""
    if type(e).__name__ == "UnitMismatch":
        return True
    for f in traceback.extract_tb(e.__traceback__):
        if "/openconcept/" in f.filename:
            return True
        if f.filename.endswith("openmdao/core/problem.py") and f.name in ("setup", "final_setup", "run_model"):
            return True
    return False


RECORD = {} if os.environ.get("OC_UNITS_RECORD") else None
UNITS = None


def units_of(cls):
    global UNITS
    if UNITS is None:
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props", "units.json")
        UNITS = json.load(open(f)) if os.path.exists(f) else {}
    return UNITS.get(cls.__name__, {})


class Handle:
    def __init__(self, env, model, cls, symopts=None):
        self.env = env
        self.m = model
        self.cls = cls
        self.symopts = symopts

    def __call__(self, _states=None, **ins):
        return self.run(ins, _states)

    def run(self, ins, states=None):
        """returns outputs (explicit) or residuals (implicit); values are in the units the harness was written for
        (props/units.json), converted to whatever units the component declares now"""
        u = units_of(self.cls)
        f = {}
        for k, m in list(self.m.inputs.items()) + list(self.m.outputs.items()):
            d = m.get("units")
            if RECORD is not None:
                RECORD.setdefault(self.cls.__name__, {}).setdefault(k, set()).add(d)
            w = u.get(k, "*")
            if w != "*" and w != d and w is not None and d is not None:
                f[k] = (w, d)
        if not f:
            return self.run_declared(ins, states)
        to = lambda k, v: self.converted(v, *f[k]) if k in f else v
        r = self.run_declared({k: to(k, v) for k, v in ins.items()}, {k: to(k, v) for k, v in states.items()} if states else states)
        return {k: self.converted(r[k], f[k][1], f[k][0], self.m.implicit) if k in f else r[k] for k in self.m.outputs}

    def converted(self, v, a, b, scale_only=False):
        from . import grp

        fac, off = grp.unit_rat(a, b)
        if scale_only:
            off = 0
        if self.env.real:
            return (np.asarray(v, dtype=float) + float(off)) * float(fac)
        v = npx.lift_arr(v)
        return (v + X.const(off)) * X.const(fac) if off else v * X.const(fac)

    def run_declared(self, ins, states=None):
        n = self.cls.__module__ + "." + self.cls.__name__
        if not self.env.real:
            self.env.funcs.add(n + (".apply_nonlinear" if self.m.implicit else ".compute"))
            full = {}
            for k, meta in self.m.inputs.items():
                if k in ins:
                    full[k] = ins[k]
                else:
                    raise Unsupported("harness gives no value for input %s of %s" % (k, n))
            for k in ins:
                if k not in self.m.inputs:
                    raise Unsupported("harness gives value for unknown input %s of %s" % (k, n))
            if not self.symopts:
                return self.m.run(full, states)
            metas = self.m.comp.options._dict
            old = {n: metas[n]["val"] for n in self.symopts}
            try:
                for n, v in self.symopts.items():
                    metas[n]["val"] = v
                return self.m.run(full, states)
            finally:
                for n, v in old.items():
                    metas[n]["val"] = v
        p = self.m.prob
        for k, v in ins.items():
            _setreal(p, "c." + k, v)
        if states:
            for k, v in states.items():
                _setreal(p, "c." + k, v)
        with omx.quiet():
            if self.m.implicit:
                p.model.run_apply_nonlinear()
                return {k: np.array(self.m.comp._residuals[k]) for k in self.m.outputs}
            p.run_model()
        return {k: np.array(p.get_val("c." + k)) for k in self.m.outputs}

    def out_shape(self, k):
        return self.m.outputs[k]["shape"]


def _setreal(p, name, v):
    cur = p.get_val(name)
    p.set_val(name, np.broadcast_to(np.asarray(v, dtype=float), cur.shape) if np.size(v) != cur.size
              else np.asarray(v, dtype=float).reshape(cur.shape))


def _bc(a, b):
    """flattened aligned lists"""
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b
    a = np.asarray(a)
    b = np.asarray(b)
    if a.size == b.size and a.shape != b.shape:
        return a.reshape(-1).tolist(), b.reshape(-1).tolist()
    a, b = np.broadcast_arrays(a, b)
    return a.reshape(-1).tolist(), b.reshape(-1).tolist()


# ------------------------------------------------------------------------------------------------ semantic harness
class Semantic:
    """fn(env) builds goals. name must be unique inside the property."""

    def __init__(self, name, fn, bounds="", max_paths=64, budget=60, tier="quick", generic_eq=True):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.max_paths = max_paths
        self.budget = budget
        self.tier = tier
        self.generic_eq = generic_eq

    def execute(self, res, deadline):
        gp = GP()
        cache = {}
        if self.bounds:
            res.bounds.append("%s: %s" % (self.name, self.bounds))
        opts = {"deadline": deadline, "generic_eq": self.generic_eq}
        seen_raise = 0

        def run(ctx):
            env = Env(cache=cache)
            env.ctx = ctx
            ctx.env = env
            with npx.patched():
                self.fn(env)
            return env

        for ctx, env, ex in explore.explore(run, opts, gp, res.stats, self.max_paths):
            if ctx is None:
                res.inconclusive.append("%s: %s" % (self.name, ex))
                break
            res.paths += 1
            res.notes |= ctx.notes
            if ex is not None:
                if isinstance(ex, explore.PathLimit):
                    res.inconclusive.append("%s: %s" % (self.name, ex))
                    break
                note_raise(res, self.name, ctx, ex, {"kind": "semantic"})
                continue
            res.functions |= env.funcs
            if not env.goals:
                continue
            check_goals(res, self.name, ctx, env, gp, deadline)
        if type(self) is Semantic and not (res.paths or res.goals or res.candidates or res.inconclusive):
            self.nowhere(res)

    def nowhere(self, res):
        """no input at all leads through the code to a defined result: what does the real code deliver?"""
        rng = random.Random(3)
        for k in range(3):
            pt = {}
            for n, info in sorted(X.VARS.items()):
                if not n.startswith(("stale!", "j!")):
                    pt[n] = float(sample_var2(None if info.lo is None else float(info.lo), None if info.hi is None else float(info.hi), info.pos, rng, k))
            res.candidates.append(dict(harness=self.name, label="!raise", point=pt, text="undefined for every input", kind="semantic"))

    def replay(self, point, label):
        """run on the real code; returns (violated, text)"""
        env = Env(real_point=point)
        try:
            self.fn(env)
        except PreconditionFailed as e:
            return False, "precondition failed"
        except Exception as e:
            if label == "!raise" and code_error(e):
                return True, "real code raised %s: %s" % (type(e).__name__, e)
            return False, "replay raised %s: %s" % (type(e).__name__, e)
        for kind, lab, a, b, tol, scale in env.goals:
            if label != "!raise" and lab != label and label.rsplit("[", 1)[0] != lab:
                continue
            xs, ys = _bc(a, b)
            sc = 0.0 if scale is None else float(np.max(np.abs(np.asarray(scale, dtype=float))))
            for i, (x, y) in enumerate(zip(xs, ys)):
                x, y = float(x), float(y)
                if label == "!raise":
                    # the symbolic run hit an undefined operation: does the real code deliver an undefined value here?
                    if not (math.isfinite(x) and math.isfinite(y)) and not (env.alike and (x == y or x != x and y != y)):
                        return True, "%s: undefined value (%r, %r)" % (lab, x, y)
                elif kind == "eq":
                    if not abs(x - y) <= 100 * tol * max(abs(x), abs(y), sc, 1e-300):
                        return True, "%s: %r vs %r" % (lab, x, y)
                elif kind == "le":
                    if not x <= y + 1e-7 * max(abs(x), abs(y)):
                        return True, "%s: %r > %r" % (lab, x, y)
                else:
                    if not x < y:
                        return True, "%s: %r >= %r" % (lab, x, y)
        return False, "goal holds on the real code"


def note_raise(res, name, ctx, ex, extra):
    """an exception on a path: find a point on the path, let the replay decide whether the real code fails there"""
    txt = "%s: %s" % (type(ex).__name__, str(ex)[:200])
    res.goals += 1
    if os.environ.get("SX_TRACE"):
        traceback.print_exception(ex)
    if isinstance(ex, (Unsupported, TooBig, HarnessTimeout, RecursionError)):
        res.inconclusive.append("%s: %s" % (name, txt))
        return
    pt = find_point(ctx, list(X.VARS), lambda p, m: True, base_of(ctx), tries=60) if True else None
    tb = traceback.extract_tb(ex.__traceback__)
    where = "%s:%d" % (tb[-1].filename, tb[-1].lineno) if tb else ""
    if tb and os.sep + "props" + os.sep in tb[-1].filename and isinstance(ex, (KeyError, AttributeError, ImportError, NameError)):
        # the harness looked up something the code under test does not offer (any more): no verdict
        res.inconclusive.append("%s: harness: %s at %s" % (name, txt, where))
        return
    if pt is None:
        res.inconclusive.append("%s: %s at %s (no concrete point found)" % (name, txt, where))
        return
    c = dict(harness=name, label="!raise", point=pt, text=txt + " " + where)
    c.update(extra)
    res.candidates.append(c)


def base_of(ctx):
    env = getattr(ctx, "env", None)
    out = {}
    if env is not None:
        for n, (shape, lo, hi, base) in env.inputs_decl.items():
            if base is None:
                continue
            for idx in np.ndindex(*shape):
                nm = n + ("[%s]" % ",".join(map(str, idx)) if idx else "")
                out[nm] = float(base[idx]) if isinstance(base, np.ndarray) else float(base)
    return out


def check_goals(res, name, ctx, env, gp, deadline):
    names = sorted(X.VARS)
    base = base_of(ctx)
    eqs = []
    ineqs = []
    for kind, label, a, b, tol, scale in env.goals:
        xs, ys = _bc(a, b)
        for i, (x, y) in enumerate(zip(xs, ys)):
            lab = label if len(xs) == 1 else "%s[%d]" % (label, i)
            res.goals += 1
            try:
                x, y = X.lift(x), X.lift(y)
            except SymDomainError:
                res.inconclusive.append("%s: %s: non-real constant" % (name, lab))
                continue
            (eqs if kind == "eq" else ineqs).append((lab, kind, x, y, tol))
    if not res.witness:
        res.witness = find_point(ctx, names, lambda p, m: True, base, tries=80) is not None
    # equalities: canonical residuals, one batched query
    polys, meta = [], []
    for lab, kind, x, y, tol in eqs:
        try:
            polys.append(solve.residual(gp, x, y))
            meta.append((lab, x, y, tol))
        except TooBig as e:
            # no normal form within the size limit: a counterexample may still be found, equality is not concluded
            if time.time() > deadline or not handle_bad_eq(res, name, ctx, gp, lab, x, y, names, base, {"kind": "semantic"}, tol, prove=False):
                res.inconclusive.append("%s: %s: too large (%s)" % (name, lab, e))
        except (SymDomainError, ZeroDivisionError) as e:
            res.inconclusive.append("%s: %s: %s" % (name, lab, e))
    bad = solve.zero_query(polys, res.stats) if polys else []
    res.discharged += len(polys) - len(bad)
    for k, i in enumerate(bad):
        lab, x, y, tol = meta[i]
        handle_bad_eq(res, name, ctx, gp, lab, x, y, names, base, {"kind": "semantic"}, tol)
        if time.time() > deadline:
            res.inconclusive.append("%s: out of time after %d suspicious equalities" % (name, k + 1))
            break
    if ineqs and not env.alike:
        seen = []

        def defined(p, m):
            seen.append(1)
            for lab, kind, x, y, tol in ineqs:
                X.evalf(x, p, m), X.evalf(y, p, m)
            return True
        if find_point(ctx, names, defined, base, tries=120) is None and seen:
            for lab, kind, x, y, tol in ineqs:
                undefined(res, name, ctx, lab, names, base)
            return
    for lab, kind, x, y, tol in ineqs:
        if time.time() > deadline:
            res.inconclusive.append("%s: %s: out of time" % (name, lab))
            continue
        check_ineq(res, name, ctx, gp, lab, kind, x, y, names, base)


def handle_bad_eq(res, name, ctx, gp, lab, x, y, names, base, extra, tol=1e-6, prove=True):
    best = [None]
    conds_ok = [False]

    def pred(p, m):
        a, b = X.evalf(x, p, m), X.evalf(y, p, m)
        conds_ok[0] = True
        return (abs(a - b) > max(tol, 1e-6) * 300 * max(abs(a), abs(b)) and abs(a - b) > 1e-250
                and abs(a - b) > 30 * (X.rounding(x, p, m) + X.rounding(y, p, m)))

    pt = find_point(ctx, names, pred, base)
    if pt is not None:
        c = dict(harness=name, label=lab, point=pt, text="symbolic counterexample")
        c.update(extra)
        res.candidates.append(c)
        return True
    if not prove:
        return False
    if not conds_ok[0] and undefined(res, name, ctx, lab, names, base):
        return True
    # no visible numeric difference: ask z3 for a proof over the definitions (nonlinear)
    r = nra_equal(res, ctx, x, y)
    if r:
        res.discharged += 1
    else:
        res.inconclusive.append("%s: %s: not decided (normal forms differ, no concrete difference found%s)" % (
            name, lab, "" if conds_ok[0] else "; no concrete point on the path"))


def undefined(res, name, ctx, lab, names, base):
    """there are points on the path, but the two sides have no value at any of them: a proof over the definitions would be
    empty. The real code decides whether the values are missing there too."""
    if getattr(getattr(ctx, "env", None), "alike", False):
        return False
    pt = find_point(ctx, names, lambda p, m: True, base, tries=80)
    if pt is None:
        return False
    res.candidates.append(dict(harness=name, label=lab, point=pt, text="no value anywhere on the path", kind="semantic"))
    return True


def nra_equal(res, ctx, x, y):
    s = z3.Solver()
    s.set("timeout", 6000)
    tr = solve.Z3Tr()
    try:
        for op, d, v in ctx.conds():
            s.add(solve.cond_z3(tr, op, d, v))
        s.add(tr.tr(x) != tr.tr(y))
        for a in tr.axioms:
            s.add(a)
        return res.stats.run(s) == z3.unsat
    except Exception:
        return False


def check_ineq(res, name, ctx, gp, lab, kind, x, y, names, base):
    d = X.add(y, X.neg(x))  # must be >= 0 (le) or > 0 (lt)
    try:
        p = gp.of(d)
        sg = gp.sign(p)
        if sg is not None:
            if sg > 0 or (sg == 0 and kind == "le"):
                # let z3 confirm over positive monomials
                s = z3.SolverFor("QF_LRA")
                t = []
                for i, (m, (c, g)) in enumerate(p.items()):
                    v = z3.Real("X%d" % i)
                    s.add(v > 0)
                    t.append(z3.Q(1, 1) * v)
                s.add(z3.Sum(t) <= 0 if kind == "lt" else z3.Sum(t) < 0) if t else s.add(z3.BoolVal(False))
                if res.stats.run(s) == z3.unsat:
                    res.discharged += 1
                    return
    except (TooBig, SymDomainError, ZeroDivisionError):
        pass

    def pred(p, m):
        a, b = X.evalf(x, p, m), X.evalf(y, p, m)
        if kind == "le" and not (a > b and a - b > 30 * (X.rounding(x, p, m) + X.rounding(y, p, m))):
            return False
        return a > b + 1e-6 * max(abs(a), abs(b)) if kind == "le" else (a >= b + 1e-9 * max(abs(a), abs(b)))

    # z3 on the definitions
    s = z3.Solver()
    s.set("timeout", ctx.opts.get("goal_timeout", 15000))
    tr = solve.Z3Tr()
    for op, dd, v in ctx.conds():
        s.add(solve.cond_z3(tr, op, dd, v))
    a, b = tr.tr(x), tr.tr(y)
    s.add(a > b if kind == "le" else a >= b)
    for ax in tr.axioms:
        s.add(ax)
    r = res.stats.run(s)
    if r == z3.unsat:
        res.discharged += 1
        return
    if r == z3.sat:
        m = s.model()
        zp = {}
        for n, v in tr.vars.items():
            e = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(e):
                    e = e.approx(30)
                zp[n] = float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            except Exception:
                zp[n] = 1.0
        b2 = dict(base)
        b2.update(zp)
        mp = X.mpc()
        full = {n: mp.mpf(zp.get(n, base.get(n, 1.0))) for n in names}
        try:
            memo = {}
            if holds_conds(ctx, full, memo) and pred(full, memo):
                res.candidates.append(dict(harness=name, label=lab, point={n: float(v) for n, v in full.items()},
                                           text="z3 model", kind="semantic"))
                return
        except Exception:
            pass
    pt = find_point(ctx, names, pred, base, tries=250)
    if pt is not None:
        res.candidates.append(dict(harness=name, label=lab, point=pt, text="counterexample on the path", kind="semantic"))
        return
    res.inconclusive.append("%s: %s: inequality not decided (z3 %s)" % (name, lab, r))


# ------------------------------------------------------------------------------------------------ continuity harness
class Continuity(Semantic):
    """fn(env) returns {label: outputs}; on the surface where two execution paths part, both must give the same value"""

    def execute(self, res, deadline):
        gp = GP()
        cache = {}
        if self.bounds:
            res.bounds.append("%s: %s" % (self.name, self.bounds))
        opts = {"deadline": deadline, "generic_eq": self.generic_eq}

        def run(ctx):
            env = Env(cache=cache)
            env.ctx = ctx
            ctx.env = env
            with npx.patched():
                r = self.fn(env)
                return env, {k: [X.lift(e) for e in np.asarray(v, dtype=object).reshape(-1)] for k, v in r.items()}

        paths = []
        for ctx, r, ex in explore.explore(run, opts, gp, res.stats, self.max_paths):
            if ctx is None:
                res.inconclusive.append("%s: %s" % (self.name, ex))
                break
            res.paths += 1
            res.notes |= ctx.notes
            if ex is not None:
                note_raise(res, self.name, ctx, ex, {"kind": "semantic"})
                continue
            res.functions |= r[0].funcs
            paths.append((ctx, r[0], r[1]))
        for i in range(len(paths)):
            for j in range(i):
                if time.time() > deadline:
                    res.inconclusive.append("%s: out of time" % self.name)
                    return
                self.joint(res, paths[j], paths[i], gp, opts)

    @staticmethod
    def flatten(gp, e):
        """constant when the normal form shows the formula is one"""
        try:
            g, p = solve.residual(gp, e, X.const(0))
        except (TooBig, SymDomainError, ZeroDivisionError):
            return e
        if not p:
            return X.const(0)
        if set(p) == {()}:
            return X.const(Fraction(p[()][0]))
        return e

    def joint(self, res, A, B, gp, opts):
        ca, cb = A[0].conds(), B[0].conds()
        k = 0
        while k < min(len(ca), len(cb)) and ca[k][1] is cb[k][1] and ca[k][2] == cb[k][2]:
            k += 1
        if k >= min(len(ca), len(cb)) or ca[k][1] is not cb[k][1]:
            return
        d = ca[k][1]
        var = None
        for n in sorted(X.variables(d)):
            s = X.diff(d, n)
            if n not in X.variables(s) and not (s.op == "c" and s.args == 0):
                var = n
                break
        if var is None:
            res.inconclusive.append("%s: boundary not linear in any input" % self.name)
            return
        at = X.mul(X.neg(X.subst(d, {var: X.const(0)})), X.power(X.diff(d, var), X.const(-1)))
        m = {var: at}
        ctx = explore.Ctx([], opts, gp, res.stats)
        info = X.VARS[var]
        try:
            if info.lo is not None:
                ctx.assume("<", X.add(at, X.neg(X.const(info.lo))), False)
            if info.hi is not None:
                ctx.assume("<", X.add(X.const(info.hi), X.neg(at)), False)
            for conds in (ca, cb):
                for op, e, v in conds:
                    e = X.subst(e, m)
                    if op == "==":
                        continue
                    if e.op != "c":
                        e = self.flatten(gp, e)
                    if e.op == "c":
                        if (e.args > 0) if v else (e.args < 0):
                            return
                        continue
                    # weakened: both formulas are limits of the function from their own side
                    ctx.assume("<", X.neg(e) if v else e, False)
        except (explore.Infeasible, SymDomainError, ZeroDivisionError):
            return
        try:
            if ctx.solver is not None and res.stats.run(ctx.solver) == z3.unsat:
                return
        except Exception:
            pass
        ctx.env = A[1]
        base = base_of(ctx)
        names = sorted(n for n in X.VARS if n != var)
        res.witness = True
        for lab in A[2]:
            for q, (x, y) in enumerate(zip(A[2][lab], B[2][lab])):
                if x is y:
                    continue
                res.goals += 1
                label = "%s[%d] continuous at %s" % (lab, q, var)
                try:
                    x2, y2 = X.subst(x, m), X.subst(y, m)
                    bad = solve.zero_query([solve.residual(gp, x2, y2)], res.stats)
                except (TooBig, SymDomainError, ZeroDivisionError) as e:
                    res.inconclusive.append("%s: %s: %s" % (self.name, label, e))
                    continue
                if not bad:
                    res.discharged += 1
                    continue

                def pred(p, mm):
                    a, b = X.evalf(x2, p, mm), X.evalf(y2, p, mm)
                    return abs(a - b) > 1e-4 * max(abs(a), abs(b))

                pt = find_point(ctx, names, pred, base)
                if pt is None:
                    if nra_equal(res, ctx, x2, y2):
                        res.discharged += 1
                    else:
                        res.inconclusive.append("%s: %s: not decided" % (self.name, label))
                    continue
                pt[var] = float(X.evalf(at, {k2: X.mpc().mpf(v2) for k2, v2 in pt.items()}, {}))
                res.candidates.append(dict(harness=self.name, label=label, point=pt, text="jump", kind="semantic"))

    def replay(self, point, label):
        if label == "!raise":
            try:
                self.fn(Env(real_point=point))
            except PreconditionFailed:
                return False, "precondition failed"
            except Exception as e:
                return code_error(e), "real code raised %s: %s" % (type(e).__name__, e)
            return False, "real code does not raise"
        lab, rest = label.split("[", 1)
        q = int(rest.split("]")[0])
        var = label.rsplit(" at ", 1)[1]
        vals = []
        for f in (-2e-8, -1e-8, 1e-8, 2e-8):
            pt = dict(point)
            pt[var] = point[var] + f * (abs(point[var]) or 1.0)
            vals.append(float(np.asarray(self.fn(Env(real_point=pt))[lab], dtype=float).reshape(-1)[q]))
        jump = abs(vals[2] - vals[1])
        slope = max(abs(vals[1] - vals[0]), abs(vals[3] - vals[2]))
        return (jump > 1e-5 * max(abs(v) for v in vals) + 10 * slope,
                "%s: %r just below, %r just above %s=%r" % (lab, vals[1], vals[2], var, point[var]))


# ------------------------------------------------------------------------------------------------ derivative harness
class Deriv:
    """supplied partial derivatives == true derivatives, for one component configuration"""

    def __init__(self, name, make, dom=None, conn=None, values=None, max_paths=64, budget=60, fixed=None, bounds="",
                 tier="quick", base=None, pre=None, tol=1e-6):
        self.name = name
        self.pre = pre  # optional: pre(ins) -> list of ("<"|"<=", a, b) assumptions
        self.tol = tol
        self.make = make  # () -> component instance
        self.dom = dom or {}
        self.conn = conn
        self.values = values
        self.max_paths = max_paths
        self.budget = budget
        self.fixed = fixed or {}
        self.bounds = bounds
        self.tier = tier
        self.base = base or {}

    def model(self):
        return omx.CompModel(self.make(), self.conn, self.values)

    def domain(self, k, meta):
        for pat, d in self.dom.items():
            if pat == k or (pat.endswith("*") and k.startswith(pat[:-1])) or (
                    pat.startswith("*") and k.endswith(pat[1:])):
                return d
        v = np.asarray(meta["val"], dtype=float)
        if np.any(v < 0):
            return (None, None)
        return (0, None)

    def sym_inputs(self, mdl):
        ins, outs, base = {}, {}, {}
        for src, dst in ((mdl.inputs, ins), (mdl.outputs, outs if mdl.implicit else None)):
            if dst is None:
                continue
            for k, meta in src.items():
                if k in self.fixed:
                    dst[k] = npx.lift_arr(np.broadcast_to(np.asarray(self.fixed[k], dtype=float), meta["shape"]))
                    continue
                lo, hi = self.domain(k, meta)
                dst[k] = omx.sym_array(k, meta["shape"], lo, hi)
                v = np.asarray(self.base.get(k, meta["val"]), dtype=float)
                v = np.broadcast_to(v, meta["shape"])
                for idx in np.ndindex(*meta["shape"]):
                    nm = k + ("[%s]" % ",".join(map(str, idx)) if idx else "")
                    if v[idx] not in (0.0, 1.0):
                        base[nm] = float(v[idx])
        return ins, outs, base

    def execute(self, res, deadline):
        mdl = self.model()
        cls = type(mdl.comp)
        cname = cls.__module__ + "." + cls.__name__
        if mdl.discrete:
            raise Unsupported("discrete variables")
        if self.bounds:
            res.bounds.append("%s: %s" % (self.name, self.bounds))
        gp = GP()
        opts = {"deadline": deadline}
        base_out = {}
        csp = {k for k, m in mdl.info.items() if m.get("method") == "cs"}
        fdp = {k for k, m in mdl.info.items() if m.get("method") == "fd"}
        has_cp = bool(mdl.comp._has_linearize if mdl.implicit else mdl.comp._has_compute_partials)

        def run(ctx):
            ins, outs, base = self.sym_inputs(mdl)
            base_out.update(base)
            if self.pre:
                assume_all(ctx, self.pre(ins))
            with npx.patched():
                F = mdl.run(ins, outs)
                F = {k: np.array(v) for k, v in F.items()}
                Fc = None
                if csp:
                    ctx.cs_mode = True
                    try:
                        Fc = mdl.run(ins, outs)
                        Fc = {k: np.array(v) for k, v in Fc.items()}
                    finally:
                        ctx.cs_mode = False
                J = omx.SymJac(mdl.info)
                if has_cp:
                    mdl.partials(J)
            ctx.hist = J.settle()
            allin = dict(ins)
            allin.update(outs)
            return F, Fc, J, allin

        paths_hist = []
        nm = ".apply_nonlinear" if mdl.implicit else ".compute"
        res.functions.add(cname + nm)
        if has_cp:
            res.functions.add(cname + (".linearize" if mdl.implicit else ".compute_partials"))
        for ctx, r, ex in explore.explore(run, opts, gp, res.stats, self.max_paths):
            if ctx is None:
                res.inconclusive.append("%s: %s" % (self.name, ex))
                break
            res.paths += 1
            res.notes |= ctx.notes
            names = sorted(n for n in X.VARS if "!" not in n)
            if ex is not None:
                if isinstance(ex, explore.PathLimit):
                    res.inconclusive.append("%s: %s" % (self.name, ex))
                    break
                if is_rejection(ex):
                    res.notes.add("inputs the component itself rejects with an explicit raise are outside the claim")
                    continue
                note_raise(res, self.name, ctx, ex, {"kind": "deriv"})
                continue
            if time.time() > deadline:
                res.inconclusive.append("%s: time limit" % self.name)
                break
            paths_hist.append((ctx, ctx.hist))
            if not res.witness:
                res.witness = find_point(ctx, names, lambda p, m: True, base_out, tries=80) is not None
            F, Fc, J, allin = r
            pending = []
            for of, fo in F.items():
                ff = fo.reshape(-1)
                fvars = [X.variables(X.lift(e)) for e in ff]
                for wrt, arr in allin.items():
                    key = (of, wrt)
                    declared = key in mdl.info
                    if key in fdp:
                        res.notes.add("finite-difference approximated pairs are not exact derivatives and are not compared")
                        continue
                    D = J.dense(key) if declared else None
                    if key in csp and key not in J.touched:
                        D = None
                        cs = True
                    else:
                        cs = False
                    av = np.asarray(arr).reshape(-1)
                    for i in range(len(ff)):
                        for j in range(len(av)):
                            if av[j].op != "v":
                                continue
                            res.goals += 1
                            vn = av[j].args
                            true = X.diff(X.lift(ff[i]), vn) if vn in fvars[i] else X.const(0)
                            if cs:
                                fc = X.lift(Fc[of].reshape(-1)[i])
                                sup = X.diff(fc, vn)
                            elif D is None:
                                sup = X.const(0)
                            else:
                                sup = X.lift(D[i, j])
                            pending.append((of, wrt, i, j, sup, true))
            polys, meta = [], []
            for t in pending:
                of, wrt, i, j, sup, true = t
                lab = "d(%s[%d])/d(%s[%d])" % (of, i, wrt, j)
                if time.time() > deadline:
                    res.inconclusive.append("%s: time limit in residuals" % self.name)
                    break
                try:
                    polys.append((gp, {}) if sup is true else solve.residual(gp, sup, true, self.tol))
                    meta.append((lab, t))
                except TooBig as e:
                    if time.time() > deadline or not handle_bad_eq(res, self.name, ctx, gp, lab, sup, true, names, base_out,
                                                                   dict(kind="deriv", of=of, wrt=wrt, i=i, j=j), max(self.tol, 1e-6), prove=False):
                        res.inconclusive.append("%s: %s: too large (%s)" % (self.name, lab, e))
                except (SymDomainError, ZeroDivisionError) as e:
                    res.inconclusive.append("%s: %s: %s" % (self.name, lab, e))
            bad = []
            for a in range(0, len(polys), 200):
                bad += [a + b for b in solve.zero_query(polys[a:a + 200], res.stats, self.tol)]
            res.discharged += len(polys) - len(bad)
            done = set()
            for b in bad:
                lab, (of, wrt, i, j, sup, true) = meta[b]
                if (of, wrt) in done and len(bad) > 6:
                    continue
                nc = len(res.candidates)
                handle_bad_eq(res, self.name, ctx, gp, lab, sup, true, names, base_out,
                              dict(kind="deriv", of=of, wrt=wrt, i=i, j=j), max(self.tol, 1e-6))
                if len(res.candidates) > nc:
                    done.add((of, wrt))
                if time.time() > deadline:
                    res.inconclusive.append("%s: time limit with undecided equalities" % self.name)
                    break
        self.history(res, mdl, paths_hist, base_out)

    def history(self, res, mdl, paths, base):
        """an entry left unwritten on one path and written on another (or computed from its old value) makes the
        Jacobian depend on earlier linearisations"""
        written = {}
        for ctx, (left, acc, wr) in paths:
            for e in wr:
                written.setdefault(e, ctx)
        done = set()
        for ctx, (left, acc, wr) in paths:
            res.goals += 1
            todo = [(e, ctx) for e in acc] + [(e, written[e]) for e in left if e in written]
            if not todo:
                res.discharged += 1
                continue
            for (key, idx), other in todo[:4]:
                if key in done:
                    continue
                done.add(key)
                names = list(X.VARS)
                a = find_point(ctx, names, lambda p, m: True, base, tries=120)
                b = find_point(other, names, lambda p, m: True, base, tries=120, seed=2)
                if a is None or b is None:
                    res.inconclusive.append("%s: partial %s keeps old entries (no concrete points)" % (self.name, key))
                    continue
                res.candidates.append(dict(harness=self.name, label="history d(%s)/d(%s)" % key, point={"A": a, "B": b},
                                           text="entry %d not rewritten" % idx, kind="deriv", of=key[0], wrt=key[1],
                                           i=0, j=0))

    def set_point(self, mdl, pt):
        for src, st in ((mdl.inputs, False), (mdl.outputs, True)):
            if st and not mdl.implicit:
                continue
            for k, meta in src.items():
                v = np.empty(meta["shape"])
                for idx in np.ndindex(*meta["shape"]):
                    nm = k + ("[%s]" % ",".join(map(str, idx)) if idx else "")
                    if k in self.fixed:
                        v[idx] = np.broadcast_to(np.asarray(self.fixed[k], dtype=float), meta["shape"])[idx]
                    else:
                        v[idx] = pt.get(nm, 1.0)
                mdl.prob.set_val("c." + k, v)

    def replay_history(self, point, of, wrt):
        vals = []
        for seq in (("A",), ("B", "A")):
            mdl = self.model()
            for w in seq:
                self.set_point(mdl, point[w])
                with omx.quiet():
                    if mdl.implicit:
                        mdl.prob.model.run_apply_nonlinear()
                    else:
                        mdl.prob.run_model()
                    mdl.prob.model.run_linearize()
            p = mdl.comp.pathname + "."
            v = mdl.comp._subjacs_info[(p + of, p + wrt)]["val"]
            vals.append(np.array(v.toarray() if hasattr(v, "toarray") else v, dtype=float))
        if seq == ("B", "A") and np.allclose(vals[0], vals[1], rtol=1e-9, atol=0):
            mdl = self.model()
            for w in ("A", "A"):
                self.set_point(mdl, point[w])
                with omx.quiet():
                    mdl.prob.model.run_apply_nonlinear() if mdl.implicit else mdl.prob.run_model()
                    mdl.prob.model.run_linearize()
            v = mdl.comp._subjacs_info[(p + of, p + wrt)]["val"]
            vals[1] = np.array(v.toarray() if hasattr(v, "toarray") else v, dtype=float)
        bad = not np.allclose(vals[0], vals[1], rtol=1e-9, atol=0)
        return bad, "d(%s)/d(%s) at the same inputs: %s when linearised first, %s after another point" % (
            of, wrt, vals[0].reshape(-1)[:4], vals[1].reshape(-1)[:4])

    # ---- on the real code
    def replay(self, point, label, of=None, wrt=None, i=None, j=None):
        mdl = self.model()
        p = mdl.prob
        comp = mdl.comp

        if label.startswith("history"):
            return self.replay_history(point, of, wrt)

        def setall(pt):
            for src, st in ((mdl.inputs, False), (mdl.outputs, True)):
                if st and not mdl.implicit:
                    continue
                for k, meta in src.items():
                    v = np.empty(meta["shape"])
                    for idx in np.ndindex(*meta["shape"]):
                        nm = k + ("[%s]" % ",".join(map(str, idx)) if idx else "")
                        if k in self.fixed:
                            v[idx] = np.broadcast_to(np.asarray(self.fixed[k], dtype=float), meta["shape"])[idx]
                        else:
                            v[idx] = pt.get(nm, 1.0)
                    p.set_val("c." + k, v)

        def f(pt):
            setall(pt)
            with omx.quiet():
                if mdl.implicit:
                    p.model.run_apply_nonlinear()
                    return np.array(comp._residuals[of]).reshape(-1) if of else None
                p.run_model()
                return np.array(p.get_val("c." + of)).reshape(-1) if of else None

        try:
            f(point)
            with omx.quiet():
                p.model.run_linearize()
        except Exception as e:
            if label == "!raise":
                return True, "real code raised %s: %s" % (type(e).__name__, str(e)[:300])
            return False, "replay raised %s: %s" % (type(e).__name__, str(e)[:300])
        if label == "!raise":
            return False, "real code does not raise"
        supplied = 0.0
        if (of, wrt) in mdl.info:
            m = mdl.comp._subjacs_info[(comp.pathname + "." + of, comp.pathname + "." + wrt)]
            v = m["val"]
            if m["rows"] is None:
                v = v.toarray() if hasattr(v, "toarray") else np.asarray(v).reshape(m["shape"])
                supplied = float(v[i, j])
            else:
                sel = (np.asarray(m["rows"]) == i) & (np.asarray(m["cols"]) == j)
                supplied = float(np.sum(np.asarray(v)[sel]))
        meta = mdl.inputs.get(wrt) or mdl.outputs.get(wrt)
        idx = list(np.ndindex(*meta["shape"]))[j]
        nm = wrt + ("[%s]" % ",".join(map(str, idx)) if idx else "")
        x0 = point[nm]

        def g(x):
            q = dict(point)
            q[nm] = x
            return f(q)[i]

        true, err = ridders(g, x0)
        scale = max(abs(true), abs(supplied))
        bad = abs(true - supplied) > 1e-4 * scale + 20 * err and scale > 0
        return bad, "%s: supplied %.10g, finite difference of the real code %.10g (+-%.1g)" % (label, supplied, true, err)


def om_errors():
    from openmdao.api import AnalysisError

    return AnalysisError


def is_rejection(ex):
    """raised by an explicit raise statement of the code under test (not by numpy or python on its behalf)"""
    tb = traceback.extract_tb(ex.__traceback__)
    if not tb or not isinstance(ex, (ValueError, RuntimeError, RuntimeWarning, AssertionError, ArithmeticError,
                                     NotImplementedError, UserWarning, om_errors())):
        return False
    return "/openconcept/" in tb[-1].filename and (tb[-1].line or "").strip().startswith("raise")


def assume_all(ctx, items):
    for op, a, b in items:
        for x, y in zip(*_bc(a, b)):
            d = X.add(X.lift(x), X.neg(X.lift(y)))
            if op == "<":
                ctx.assume("<", d, True)
            else:
                ctx.assume("<", X.neg(d), False)


def ridders(g, x0):
    h0 = 0.02 * abs(x0) if x0 else 1e-2
    best, err = float("nan"), float("inf")
    for hs in (h0, h0 * 0.1, h0 * 0.01, h0 * 1e-3):
        a = []
        h = hs
        for i in range(6):
            row = [(g(x0 + h) - g(x0 - h)) / (2 * h)]
            fac = 4.0
            for k in range(1, i + 1):
                row.append((row[k - 1] * fac - a[i - 1][k - 1]) / (fac - 1))
                fac *= 4
                e = max(abs(row[k] - row[k - 1]), abs(row[k] - a[i - 1][k - 1]))
                if e < err:
                    err, best = e, row[k]
            a.append(row)
            h *= 0.5
    return best, err


# ------------------------------------------------------------------------------------------------ running one harness
def run_harness(h, tier):
    X.reset()
    res = Result(h.name)
    t0 = time.time()
    budget = h.budget if tier == "quick" else max(h.budget * 3, 150)

    def onalarm(sig, frm):
        raise HarnessTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(budget * 1.5) + 10)
    try:
        h.execute(res, t0 + budget)
    except HarnessTimeout:
        res.inconclusive.append("%s: hard time limit" % h.name)
    except MemoryError:
        res.inconclusive.append("%s: memory" % h.name)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res.inconclusive.append("%s: harness error %s: %s (%s:%d)" % (
            h.name, type(e).__name__, str(e)[:200], tb[-1].filename, tb[-1].lineno))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res.wall = time.time() - t0
    return res.asdict()
