"""Path exploration: re-run a function under every feasible sequence of branch decisions."""
import random
import time
from . import expr as X
from . import solve
from .gp import GP, TooBig
import z3


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    """raised when an assumption contradicts the path condition"""


class Ctx:
    def __init__(self, prefix, opts, gp, stats):
        self.prefix = prefix
        self.trace = []  # (op, expr, value, forced)
        self.opts = opts
        self.gp = gp
        self.stats = stats
        self.cs_mode = False
        self.cache = {}
        self.solver = None
        self.tr = None
        self.nax = 0
        self.deadline = opts.get("deadline")
        self.notes = set()
        self.log = []
        self.dead = False
        self.point = {}
        self.probes = {}

    # -- z3 context for the path condition (incremental)
    def _z(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.opts.get("branch_timeout", 1500))
            self.tr = solve.Z3Tr()
        return self.solver

    def _sync(self):
        s = self._z()
        ax = self.tr.axioms
        while self.nax < len(ax):
            s.add(ax[self.nax])
            self.nax += 1

    def assume(self, op, d, val=True):
        """add `d op 0` (or its negation) to the path condition; Infeasible if it cannot hold"""
        d = X.lift(d)
        if d.op == "c":
            t = d.args < 0 if op == "<" else d.args == 0
            if t != val:
                raise Infeasible()
            return
        known = self._known(op, d)
        if known is not None:
            if known != val:
                raise Infeasible()
            return
        self._push(op, d, val, True)

    def _push(self, op, d, val, forced):
        self.trace.append((op, d, val, forced))
        self.cache[(op, d.id)] = val
        c = solve.cond_z3(self._tr(), op, d, val)
        self._sync()
        self.solver.add(c)

    def _tr(self):
        self._z()
        return self.tr

    def _known(self, op, d):
        k = (op, d.id)
        if k in self.cache:
            return self.cache[k]
        n = X.neg(d)
        if op == "==" and (op, n.id) in self.cache:
            return self.cache[(op, n.id)]
        if op == "<" and self.cache.get(("<", n.id)) is True:
            return False
        if op == "<" and self.cache.get(("<", n.id)) is False and self.opts.get("generic_eq", True):
            return True  # not(a < b) and a != b
        if op == "==" and (self.cache.get(("<", n.id)) is True or self.cache.get(("<", d.id)) is True):
            return False
        try:
            p = self.gp.of(d)
        except (TooBig, X.SymDomainError, ZeroDivisionError):
            return None
        sg = self.gp.sign(p)
        if sg is None and len(p) <= 40:
            try:
                q = self.gp.clear(p)
                if not q:
                    sg = 0
            except TooBig:
                pass
        if sg is None:
            sg = self._unbounded(p)
        if sg is not None:
            r = sg < 0 if op == "<" else sg == 0
            self.cache[k] = r
            return r
        r = self._twin(op, d)
        if r is not None:
            self.cache[k] = r
        return r

    def _unbounded(self, p):
        """sign of a comparison with an 'unbounded' limit (1e18 and more, OpenMDAO uses 1e30): every quantity is below it"""
        c = p.get((), None)
        if c is None or abs(c[0]) < 10**18 or any(abs(v[0]) >= 10**12 for m, v in p.items() if m):
            return None
        self.notes.add("quantities are taken to be smaller than limits of 1e18 and more (OpenMDAO's way to write 'no limit')")
        return 1 if c[0] > 0 else -1

    def _probe(self, d):
        """value of d at one fixed generic point (a cheap filter before the algebraic comparison)"""
        v = self.probes.get(d.id)
        if v is None:
            for n, i in X.VARS.items():
                if n not in self.point:
                    h = random.Random(n).random()
                    lo = float(i.lo) if i.lo is not None else None
                    hi = float(i.hi) if i.hi is not None else None
                    if lo is None and hi is None:
                        lo, hi = -2.0, 2.0
                    elif hi is None:
                        hi = lo + 2.0 + abs(lo)
                    elif lo is None:
                        lo = hi - 2.0 - abs(hi)
                    self.point[n] = lo + (hi - lo) * h
            try:
                v = float(X.evalf(d, self.point, {}))
            except Exception:
                v = float("nan")
            self.probes[d.id] = v
        return v

    def _twin(self, op, d):
        """the condition is algebraically the same as (or the opposite of) one already decided on this path"""
        for o2, d2, v2, _ in self.trace:
            if o2 != op:
                continue
            a, b = self._probe(d), self._probe(d2)
            if a != a or b != b or not (abs(abs(a) - abs(b)) <= 1e-7 * (abs(a) + abs(b))):
                continue
            same = abs(a - b) <= 1e-7 * (abs(a) + abs(b))
            if not same and op == "<" and not v2 and not self.opts.get("generic_eq", True):
                continue
            try:
                if not solve.residual_(self.gp, d, d2 if same else X.neg(d2)):
                    return v2 if same or op == "==" else not v2
            except (TooBig, X.SymDomainError, ZeroDivisionError, X.Unsupported):
                pass
        return None

    def feasible(self, op, d, val):
        self._z()
        c = solve.cond_z3(self.tr, op, d, val)
        self._sync()
        self.solver.push()
        self.solver.add(c)
        r = self.stats.run(self.solver)
        self.solver.pop()
        return r != z3.unsat

    def decide(self, op, d):
        known = self._known(op, d)
        if known is not None:
            return known
        i = len(self.log)
        if i < len(self.prefix):
            v, free = self.prefix[i]
            self.log.append((v, free))
            self._push(op, d, v, not free)
            return v
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("time")
        if op == "==" and self.opts.get("generic_eq", True):
            # equality of two non-identical quantities: measure-zero branch, excluded (stated assumption)
            v = not self.feasible(op, d, False)
            free = False
            if not v:
                self.notes.add("branches taken only when two distinct real expressions are exactly equal are not explored")
        else:
            t = self.feasible(op, d, True)
            f = self.feasible(op, d, False)
            if not t and not f:
                raise Infeasible()
            free = t and f
            v = t
        self.log.append((v, free))
        self._push(op, d, v, not free)
        return v

    def conds(self):
        return [(op, d, v) for op, d, v, _ in self.trace]


def explore(fn, opts, gp, stats, max_paths=64):
    """call fn(ctx) on every feasible path. Yields (ctx, result, exception)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        if n >= max_paths:
            yield None, None, PathLimit("more than %d paths" % max_paths)
            return
        ctx = Ctx(prefix, opts, gp, stats)
        X.CTX = ctx
        try:
            try:
                r = fn(ctx)
                ex = None
            except Infeasible:
                r, ex = None, None
                ctx.dead = True
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                r, ex = None, e
        finally:
            X.CTX = None
        n += 1
        for i in range(len(prefix), len(ctx.log)):
            # decisions made freshly on this run were taken True first; queue the alternative
            if ctx.log[i][1]:
                stack.append(ctx.log[:i] + [(False, True)])
        if ctx.dead:
            continue
        yield ctx, r, ex
